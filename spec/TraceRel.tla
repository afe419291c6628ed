------------------------------ MODULE TraceRel ------------------------------
(***************************************************************************)
(* Histories of several runs that must agree.  A case is a group:          *)
(*   c.runs   the runs' records (see Judge)                                *)
(*   c.cmp    for each run the names of the parts it must share with the   *)
(*            first one                                                    *)
(*   c.rule   "same": nothing more; "pass": what C14 says of runs with and  *)
(*            without the first pass                                       *)
(* The runs are replayed one after another.                                *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, runNo, phase, broken
vars == <<caseNo, runNo, phase, broken>>
c == Cases[caseNo]
run == c.runs[runNo + 1]
first == c.runs[1]

Init == /\ caseNo \in 1..Len(Cases) /\ runNo = 0 /\ phase = "runs" /\ broken = <<>>

Complete(r) == r.st = "exit 0" /\ r.full

Each(rows, f(_)) == [i \in 1..Len(rows) |-> f(rows[i])]
NotIns(x) == x.cm = "" \/ SubSeq(x.cm, 1, Min2(3, Len(x.cm))) # "ins"
NoTimes(x) == [x EXCEPT !.b = 0, !.f = 0]
Part(r, name) ==
  CASE name = "rows" -> Each(r.rows, LAMBDA x : <<x.r, x.h, x.c, x.e>>)
    [] name = "refs" -> IF Plain(Graph(r)) THEN SelectSeq(Each(r.rows, LAMBDA x : x.r), LAMBDA w : w # INS) ELSE <<>>
    [] name = "hyp" -> SelectSeq(Each(r.rows, LAMBDA x : x.h), LAMBDA h : h # DEL)
    [] name = "tagcol" -> Each(r.rows, LAMBDA x : x.tg)
    [] name = "groups" -> r.groups
    [] name = "std" -> r.std
    [] name = "best" -> r.best
    [] name = "cls" -> r.cls
    [] name = "spk" -> r.spk
    [] name = "tag" -> r.tag
    [] name = "sent" -> r.sent
    [] name = "sw" -> r.sw
    [] name = "uni" -> r.uni
    [] name = "bi" -> r.bi
    [] name = "cas" -> r.cas
    [] name = "nlp" -> r.nlp
    [] name = "nlpnoins" -> SelectSeq(r.nlp, NotIns)
    [] name = "nlpnotimes" -> Each(r.nlp, NoTimes)
    [] name = "secs" -> r.secs

\* no word of the hypothesis is lost or invented
HypKept(r) == LET lh == LowerAll(r, HypWords(r))
              IN FoldLeft(LAMBDA j, row : HypStep(lh, j, row), 0, r.rows) = Len(lh)

PassOK(r) ==
  LET g == Graph(first)
      lh == LowerAll(first, HypWords(first))
      l == Errors(Best(g, lh))
  IN IF ~Plain(g) THEN ""
     ELSE IF r.o.ap = "standard" /\ r.std.err = first.std.err THEN ""
     ELSE IF l > Slack /\ r.std.err >= l /\ MayFallBehind(PlainWords(g), lh) THEN ""
     ELSE IF r.o.ap = "standard" THEN "errors"
     ELSE IF r.std.err <= l + Loose(l) /\ r.std.err >= l THEN ""
     ELSE IF r.std.err = l + Loose(l) + 1 /\ TrailingEps(r) /\ EndsInDeletion(r) THEN "eps"
     ELSE "errors"

\* two ways of giving the same words: the number of errors is the same wherever it is determined
\* (see DistanceVerdict); otherwise it may differ as far as ties and the first pass let it
ErrAgrees(a, b) ==
  LET g == Graph(a)
      lh == LowerAll(a, HypWords(a))
      ea == a.std.err
      eb == b.std.err
      eps == IF (TrailingEps(a) /\ EndsInDeletion(a)) \/ (TrailingEps(b) /\ EndsInDeletion(b)) THEN 1 ELSE 0
  IN IF Plain(g) /\ (a.o.ap = "standard" \/ ~PassApplies(a, g, lh)) THEN Abs(ea - eb) <= eps
     ELSE Abs(ea - eb) <= Loose(Max2(ea, eb)) + eps
Same(name) == IF name = "err" THEN ErrAgrees(first, run) ELSE Part(first, name) = Part(run, name)

Mismatch == LET m == {k \in 1..Len(c.cmp[runNo + 1]) : ~Same(c.cmp[runNo + 1][k])}
            IN IF m = {} THEN "" ELSE c.cmp[runNo + 1][CHOOSE k \in m : \A q \in m : k <= q]
Verdict == IF ~Complete(run) THEN "no report"
           ELSE IF ~Complete(first) THEN ""
           ELSE IF run.sbs /\ ~HypKept(run) THEN "words"
           ELSE IF Mismatch # "" THEN Mismatch
           ELSE IF c.rule = "pass" THEN PassOK(run) ELSE ""

Run == /\ phase = "runs" /\ runNo < Len(c.runs)
       /\ broken' = IF Verdict = "" THEN broken
                    ELSE Append(broken, (IF Verdict = "eps" THEN "known " ELSE "") \o Verdict \o " " \o ToString(runNo))
       /\ runNo' = runNo + 1
       /\ UNCHANGED <<caseNo, phase>>
End == /\ phase = "runs" /\ runNo = Len(c.runs)
       /\ PrintT("VERDICT " \o ToString(c.id) \o FoldLeft(LAMBDA a, x : a \o ";" \o x, "", broken))
       /\ phase' = "end"
       /\ UNCHANGED <<caseNo, runNo, broken>>
Next == Run \/ End
=============================================================================
