------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* What a report must say about an alignment.  c is a case: the inputs     *)
(* (see Readings) and what the program wrote:                              *)
(*   c.rows    the side-by-side rows                                       *)
(*   c.groups  its groups of errors                                        *)
(*   c.best, c.std   totals in the JSON log / on standard output           *)
(*   c.secs    which sections the JSON log has                             *)
(*   c.cls, c.spk, c.sent, c.tag, c.sw, c.uni, c.bi, c.cas   its sections  *)
(*   c.nlp     the lines of the aligned NLP file                           *)
(* Ratios are in units of 1e-5; -1 stands for infinity, -2 for undefined.  *)
(***************************************************************************)
EXTENDS Metrics

Has(c, s) == \E i \in 1..Len(c.secs) : c.secs[i] = s

(* ---- C03 ---------------------------------------------------------------- *)
RatioOr(x, num, den, other) == IF den = 0 THEN x = other ELSE RatioIs(x, num, den)

TotalsOK(c, t) ==
  LET b == c.best
      cor == t.w - t.d - t.s
      nohyp == t.w = 0 /\ t.i = 0
  IN /\ b.ins = t.i /\ b.del = t.d /\ b.sub = t.s /\ b.err = Errs(t) /\ b.wds = t.w
     /\ RatioOr(b.wer, Errs(t), t.w, IF nohyp THEN 0 ELSE -1)
     /\ RatioOr(b.prec, cor, cor + t.i + t.s, -2)
     /\ RatioOr(b.rec, cor, cor + t.s + t.d, -2)
StdoutOK(c, t) ==
  LET b == c.std
      nohyp == t.w = 0 /\ t.i = 0
      cor == t.w - t.d - t.s
      \* four decimals are printed
      R4(x, num, den, other) == IF den = 0 THEN x = other ELSE x >= 0 /\ Abs(x * den - num * 100000) <= 10 * den
  IN /\ b.ins = t.i /\ b.del = t.d /\ b.sub = t.s /\ b.err = Errs(t) /\ b.wds = t.w /\ b.tot = t.w
     /\ R4(b.wer, Errs(t), t.w, IF nohyp THEN 0 ELSE -1)
     /\ RatioOr(b.prec, cor, cor + t.i + t.s, -2)
     /\ RatioOr(b.rec, cor, cor + t.s + t.d, -2)
MarksOK(c) == \A i \in 1..Len(c.rows) : c.rows[i].e = (IF IsErr(c.rows[i]) THEN "ERR" ELSE "")
RowShapesOK(c) == \A i \in 1..Len(c.rows) : ~(IsIns(c.rows[i]) /\ IsDel(c.rows[i]))

(* ---- sections made of tallies ------------------------------------------- *)
ResOK(x, t) == /\ x.ins = t.i /\ x.del = t.d /\ x.sub = t.s /\ x.wds = t.w /\ x.err = Errs(t)
               /\ t.w > 0 => RatioIs(x.wer, Errs(t), t.w)
TableOK(seq, f) == /\ Len(seq) = Cardinality(DOMAIN f)
                   /\ {seq[i].nm : i \in 1..Len(seq)} = DOMAIN f
                   /\ \A i \in 1..Len(seq) : ResOK(seq[i], f[seq[i].nm])
ListOK(seq, l) == /\ Len(seq) = Len(l)
                  /\ \A i \in 1..Len(l) : ResOK(seq[i], l[i])

\* the same figures on standard output; four decimals are printed there
LineOK(x, nm, t) == /\ x.nm = nm /\ x.err = Errs(t) /\ x.wds = t.w /\ x.tot = t.w
                    /\ t.w > 0 => x.wer >= 0 /\ Abs(x.wer * t.w - Errs(t) * 100000) <= 10 * t.w
LinesAre(ls, f) == /\ Len(ls) = Cardinality(DOMAIN f)
                   /\ {ls[i].nm : i \in 1..Len(ls)} = DOMAIN f
                   /\ \A i \in 1..Len(ls) : LineOK(ls[i], ls[i].nm, f[ls[i].nm])
Figures(seq, ls, f) == TableOK(seq, f) /\ LinesAre(ls, f)

ClassOK(c) == Has(c, "classWER") /\ Figures(c.cls, c.lines.cls, ClassTallies(c.rows))

SpeakerOK(c, st) ==
  LET f == SpeakerTallies(c.rows, st)
  IN /\ Has(c, "speakerWER")
     /\ Figures(c.spk, c.lines.spk, IF DOMAIN f = {} THEN "" :> Zero ELSE f)
SwitchOK(c, st) ==
  IF c.o.ctx <= 0 THEN ~Has(c, "speakerSwitchWER") /\ c.lines.sw = <<>>
  ELSE LET t == SwitchTally(c.rows, st, c.o.ctx)
       IN /\ Has(c, "speakerSwitchWER") /\ Len(c.sw) = 1
          /\ ResOK(c.sw[1], t)
          /\ c.sw[1].ws = c.o.ctx
          /\ Len(c.lines.sw) = 1 /\ LineOK(c.lines.sw[1], "", t)
          /\ Len(c.lines.sws) = 1
          /\ c.lines.sws[1].ins = t.i /\ c.lines.sws[1].del = t.d /\ c.lines.sws[1].sub = t.s
SentenceOK(c, st) == ListOK(c.sent, SentenceTallies(c.rows, st))
TagOK(c, st) == Figures(c.tag, c.lines.tag, TagTallies(c.rows, st))
TagColumnOK(c, st) ==
  LET Type(t) == IF \E i \in 1..Len(c.side) : c.side[i].id = t
                 THEN c.side[CHOOSE i \in 1..Len(c.side) : c.side[i].id = t].ty ELSE ""
  IN \A i \in 1..Len(c.rows) :
       c.rows[i].tg = FoldLeft(LAMBDA a, t : a \o "###" \o t \o "_" \o Type(t) \o "###|", "", st[i].nl.g)

(* ---- C15 ------------------------------------------------------------------ *)
GramTableOK(seq, f, thr) ==
  LET keys == {k \in DOMAIN f : GramSum(f[k]) >= thr}
  IN /\ Len(seq) = Cardinality(keys)
     /\ {seq[i].w : i \in 1..Len(seq)} = keys
     /\ \A i \in 1..Len(seq) :
          LET x == seq[i]
              u == f[x.w]
          IN /\ x.c = u.c /\ x.i = u.i /\ x.d = u.d /\ x.fp = u.fp /\ x.fn = u.fn
             /\ RatioOr(x.p, u.c, u.c + u.i + u.fp, 0)
             /\ RatioOr(x.r, u.c, u.c + u.d + u.fn, 0)
GramsOK(c) == /\ GramTableOK(c.uni, Unigrams(c.rows), c.o.thr)
              /\ GramTableOK(c.bi, Bigrams(c.rows), c.o.thr)

(* ---- C16 ------------------------------------------------------------------ *)
GroupsOK(c) == c.groups = Groups(c.rows)

(* ---- C17 ------------------------------------------------------------------ *)
CaseOK(c, st) ==
  IF ~c.o.recase THEN ~Has(c, "caseWER") /\ c.lines.cas = <<>> ELSE
  LET s == CaseStats(c.rows, st, HypWords(c))
      One(x, u) == /\ x.tp = u.tp /\ x.fp = u.fp /\ x.fn = u.fn
                   /\ RatioOr(x.p, u.tp, u.tp + u.fp, -2) /\ RatioOr(x.r, u.tp, u.tp + u.fn, -2)
      Said(x, nm, u) == /\ x.nm = nm
                        /\ RatioOr(x.p, u.tp, u.tp + u.fp, -2) /\ RatioOr(x.r, u.tp, u.tp + u.fn, -2)
  IN /\ Has(c, "caseWER") /\ Len(c.cas) = 2 /\ One(c.cas[1], s.mat) /\ One(c.cas[2], s.all)
     /\ Len(c.lines.cas) = 2 /\ Said(c.lines.cas[1], "matching", s.mat) /\ Said(c.lines.cas[2], "all", s.all)

(* ---- C11, C12: lines of the aligned NLP file ------------------------------- *)
LinesOK(c, st) ==
  LET wr == Written(c.rows, c.o.addins)
  IN /\ Len(c.nlp) = Len(wr)
     /\ \A i \in 1..Len(wr) :
          LET x == c.nlp[i]
              y == NlpLine(c.rows[wr[i]], st[wr[i]])
          IN /\ x.t = y.t /\ x.s = y.s /\ x.p = y.p /\ x.pp = y.pp /\ x.ca = y.ca /\ x.lb = y.lb
             /\ x.g = y.g /\ x.ots = y.ots /\ x.oet = y.oet /\ x.cf = y.cf /\ x.cm = y.cm

\* "ok", "known" or "bad"
LinesVerdict(c, st) ==
  IF LinesOK(c, StitchesIdeal(c.rows, NlpRows(c))) THEN "ok"
  ELSE IF LinesOK(c, st) THEN "known" ELSE "bad"

\* times are kept as floating-point numbers of 24 bits and written with four decimals
SameTime(x, y) == x >= 0 /\ Abs(x - y) <= 1 + y \div 4000000
\* c.ht: for each hypothesis word its start and its end in units of 1e-4 seconds
TimesOK(c) ==
  LET wr == Written(c.rows, c.o.addins)
      at == FoldLeft(LAMBDA a, row : [j |-> IF IsDel(row) THEN a.j ELSE a.j + 1,
                                      f |-> Append(a.f, IF IsDel(row) THEN 0 ELSE a.j + 1)],
                     [j |-> 0, f |-> <<>>], c.rows).f
  IN /\ Len(c.nlp) = Len(wr)
     /\ \A i \in 1..Len(wr) :
          LET j == at[wr[i]]
          IN IF j = 0 THEN c.nlp[i].b = -1 /\ c.nlp[i].f = -1
             ELSE SameTime(c.nlp[i].b, c.ht[j].b) /\ SameTime(c.nlp[i].f, c.ht[j].f)
\* if the hypothesis' start times never decrease, neither do those written
Monotone(c) ==
  (\A j \in 1..(Len(c.ht) - 1) : c.ht[j].b <= c.ht[j + 1].b)
  => LET b == SelectSeq([i \in 1..Len(c.nlp) |-> c.nlp[i].b], LAMBDA x : x >= 0)
     IN \A i \in 1..(Len(b) - 1) : b[i] <= b[i + 1]

(* ---- C21: a complete report ------------------------------------------------- *)
SectionNames(c, st) ==
  LET nlp == c.o.rf = "nlp"
      grams(f) == \E k \in DOMAIN f : GramSum(f[k]) >= c.o.thr
      on(b, s) == IF b THEN {s} ELSE {}
  IN {"bestWER", "classWER"}
     \cup on(grams(Unigrams(c.rows)), "unigrams") \cup on(grams(Bigrams(c.rows)), "bigrams")
     \cup IF ~nlp THEN {} ELSE
          {"speakerWER"} \cup on(c.o.ctx > 0, "speakerSwitchWER") \cup on(c.o.recase, "caseWER")
          \cup on(SentenceTallies(c.rows, st) # <<>>, "sentenceWer")
          \cup on(DOMAIN TagTallies(c.rows, st) # {}, "wer_tag")
SectionsOK(c, st) == /\ c.logged
                     /\ c.js /\ c.sbs => {c.secs[i] : i \in 1..Len(c.secs)} = SectionNames(c, st)

(* ---- C04..C07: how many errors ---------------------------------------------- *)
\* the approximate first pass looks at the tokens of both sides
PassApplies(c, g, lh) == c.o.pre /\ g.n > 10 /\ Len(lh) > 10
Loose(l) == 2 + l \div 8

\* A known finding: the adapted graph keeps an empty word at the end of a
\* hypothesis read from text or from an NLP file, and pairs it with the
\* reference's last word for the price of a substitution.
TrailingEps(c) == c.o.ap = "adapted" /\ c.o.hf \in {"txt", "nlp"}
EndsInDeletion(c) == Len(c.rows) > 0 /\ IsDel(c.rows[Len(c.rows)])

PlainWords(g) == FoldLeft(LAMBDA a, i : a \o g.out[i][1].w, <<>>, [i \in 1..g.n |-> i])
\* how many errors more than the fewest, l, a plain transcript may be given
Excuse(g, lh, l, e, more) == e > l + more /\ l > Slack /\ MayFallBehind(PlainWords(g), lh)

\* "ok"; "eps" or "pass": a known finding; "bad"
DistanceVerdict(c, g, lh) ==
  LET t == Tally(c.rows)
      e == Errs(t)
      best == Best(g, lh)
      l == Errors(best)
      pass == PassApplies(c, g, lh)
      \* as few errors as v, or an error rate as low
      AsGood(v, more) == e <= Errors(v) + more \/ e * WordsOf(v) <= (Errors(v) + more) * t.w
      Eps(x, more, v) == IF TrailingEps(c) /\ EndsInDeletion(c) /\ AsGood(v, more + x) THEN "eps" ELSE "bad"
  IN IF e < l THEN "bad"
     ELSE IF Plain(g)
     THEN LET more == IF c.o.ap = "standard" \/ ~pass THEN 0 ELSE Loose(l)
          IN IF e <= l + more THEN "ok"
            ELSE IF e <= l + more + 1 /\ Eps(1, more, best) = "eps" THEN "eps"
            ELSE IF Excuse(g, lh, l, e, more) THEN "ok" ELSE "bad"
     \* with alternatives: nothing is an error that one of them explains
     ELSE IF c.o.ap = "standard"
     THEN LET ch == Cheapest(g, lh)
              \* the search stops after so many alignments
              limit == c.o.nb < 1000000
          IN IF (l = 0 /\ e = 0) \/ AsGood(best, 0) \/ (l > 0 /\ (e <= ch.e \/ e * ch.w <= ch.e * t.w))
                \/ (limit /\ l > 0 /\ AsGood(best, Loose(l))) THEN "ok" ELSE IF pass THEN "pass" ELSE "bad"
     ELSE LET u == BestStrict(g, lh)
          IN IF l = 0 THEN (IF e = 0 THEN "ok" ELSE "bad")
             ELSE IF pass \/ AsGood(u, Loose(Errors(u))) THEN "ok"
             ELSE Eps(1, Loose(Errors(u)), u)
=============================================================================
