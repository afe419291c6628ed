------------------------------ MODULE Readings ------------------------------
(***************************************************************************)
(* What a reference stands for.  A case c carries                          *)
(*   c.ref   : the reference's rows, records with the fields               *)
(*             t token, li/ln label id and name ("" when unlabelled),      *)
(*             s speaker, p punctuation, ...                               *)
(*   c.norm  : sequence of [id, cands], cands a sequence of word sequences *)
(*   c.rules : the synonym file, a sequence of [k, l, r]; k = "rule" for a *)
(*             line that defines left side l with alternatives r           *)
(*   c.hyp   : the hypothesis' words                                       *)
(*   c.o     : options                                                     *)
(* The readings are the paths of a graph over the positions 0..n between   *)
(* the reference's tokens.  Its edges carry one or more words:             *)
(*   kind "w"   a plain word                                               *)
(*   kind "ent" a reading of a tagged span (as it stands or a              *)
(*              normalization, synonyms applied inside)                    *)
(*   kind "syn" an alternative m words long for n plain words              *)
(***************************************************************************)
EXTENDS Words

LC(c, w) == IF c.o.usecase THEN w ELSE Lower(w)

(* ---- rows as the reference loader keeps them: a punctuation mark is a    *)
(* ---- row of its own when punctuation counts as words                     *)
NlpRows(c) ==
  IF ~c.o.usepunc THEN c.ref ELSE
  FoldLeft(LAMBDA a, r : IF r.p = "" THEN Append(a, r)
                         ELSE a \o <<r, [r EXCEPT !.t = "", !.p = "", !.pp = "", !.ca = "", !.lb = "",
                                               !.li = "", !.ln = "", !.g = <<>>, !.ts = "", !.et = "", !.cf = ""]>>,
           <<>>, c.ref)

(* ---- the hypothesis' words: c.hyp, and c.hp the punctuation after each    *)
(* ---- (of an NLP file), a word of its own when punctuation counts           *)
HypWords(c) ==
  IF ~c.o.usepunc \/ c.hp = <<>> THEN c.hyp
  ELSE FoldLeft(LAMBDA a, i : IF c.hp[i] = "" THEN Append(a, c.hyp[i]) ELSE a \o <<c.hyp[i], c.hp[i]>>,
                <<>>, [i \in 1..Len(c.hyp) |-> i])
LowerAll(c, ws) == [k \in 1..Len(ws) |-> LC(c, ws[k])]

(* ---- tokens: consecutive rows with one label are one token ------------- *)
Tokens(c) ==
  LET Word(w) == [k |-> "w", w |-> <<LC(c, w)>>, id |-> "", nm |-> ""]
      Step(a, r) ==
        LET toks1 ==
              IF r.li = "" THEN Append(a.toks, Word(r.t))
              ELSE IF a.last = <<r.li, r.ln>>
              THEN [a.toks EXCEPT ![Len(a.toks)] = [@ EXCEPT !.w = Append(@, LC(c, r.t))]]
              ELSE Append(a.toks, [k |-> "ent", w |-> <<LC(c, r.t)>>, id |-> r.li, nm |-> r.ln])
            toks2 == IF c.o.usepunc /\ r.p # "" THEN Append(toks1, Word(r.p)) ELSE toks1
        IN [toks |-> toks2, last |-> <<r.li, r.ln>>]
  IN FoldLeft(Step, [toks |-> <<>>, last |-> <<"", "">>], c.ref).toks

Cands(c, id) ==
  FoldLeft(LAMBDA a, e : IF e.id = id THEN a \o [i \in 1..Len(e.cands) |->
                              [j \in 1..Len(e.cands[i]) |-> LC(c, e.cands[i][j])]] ELSE a,
           <<>>, c.norm)

(* ---- rules: those of the file, the first definition of a left side, and *)
(* ---- those derived from the vocabulary of both transcripts              *)
EmptyFun == [x \in {} |-> x]
FileRules(c) ==
  FoldLeft(LAMBDA a, e : IF e.k = "rule" /\ e.l \notin DOMAIN a THEN a @@ (e.l :> e.r) ELSE a,
           EmptyFun, c.rules)

Vocabulary(c, toks) ==
  UNION { IF toks[i].k = "w" THEN {toks[i].w[1]}
          ELSE {toks[i].w[j] : j \in 1..Len(toks[i].w)}
               \cup UNION {{x[j] : j \in 1..Len(x)} : x \in ToSet(Cands(c, toks[i].id))}
          : i \in 1..Len(toks) }
  \cup ToSet(LowerAll(c, HypWords(c)))

Rules(c, toks) ==
  LET hy == {w \in Vocabulary(c, toks) : HyphenAt(w) # 0}
      ends == {w \in hy : Unhyphened(w) # w /\ Unhyphened(w) # ""}
      cut == IF c.o.nocut THEN {} ELSE ends
      cmp == IF c.o.nohyph THEN {} ELSE {w \in hy \ cut : Len(Parts(w)) > 1}
      F0 == FileRules(c)
      F1 == [k \in {<<w>> : w \in cut} |-> << <<Unhyphened(k[1])>> >>]
      F2 == [k \in {<<w>> : w \in cmp} |-> << Parts(k[1]) >>]
      F3 == [k \in {Parts(w) : w \in cmp} |-> << <<CHOOSE w \in cmp : Parts(w) = k>> >>]
  IN F0 @@ F1 @@ F2 @@ F3

(* ---- matches of the rules in a run of words ----------------------------- *)
Matches(ws, R) ==          \* sequence over start positions of sets [n, alt]
  [i \in 1..Len(ws) |->
     UNION { IF i + Len(k) - 1 <= Len(ws) /\ SubSeq(ws, i, i + Len(k) - 1) = k
             THEN {[n |-> Len(k), alt |-> a] : a \in ToSet(R[k])} ELSE {}
             : k \in {k \in DOMAIN R : k[1] = ws[i]} }]

\* all word sequences a run stands for, each with whether a rule was used
Expand(ws, R) ==
  LET M == Matches(ws, R)
      n == Len(ws)
      Add(f, q, s) == [f EXCEPT ![q] = @ \cup s]
      At(f, i) ==
        LET here == f[i]
            f1 == Add(f, i + 1, {[w |-> Append(x.w, ws[i]), pure |-> x.pure] : x \in here})
        IN FoldSet(LAMBDA e, a : Add(a, i + e.n, {[w |-> x.w \o e.alt, pure |-> FALSE] : x \in here}),
                   f1, M[i])
  IN FoldLeft(At, [q \in 1..(n + 1) |-> IF q = 1 THEN {[w |-> <<>>, pure |-> TRUE]} ELSE {}],
              [i \in 1..n |-> i])[n + 1]

(* ---- the graph ------------------------------------------------------------ *)
Graph(c) ==
  LET toks == Tokens(c)
      n == Len(toks)
      R == Rules(c, toks)
      \* the plain words that follow position i without interruption, as far as a rule can reach
      maxL == FoldSet(LAMBDA k, a : Max2(Len(k), a), 1, DOMAIN R)
      RunEnd(i) == LET lim == Min2(n, i + maxL - 1)
                       stop == {j \in i..lim : toks[j].k # "w"}
                   IN IF stop = {} THEN lim ELSE (CHOOSE j \in stop : \A q \in stop : j <= q) - 1
      Syn(i) == LET e == RunEnd(i)
                    ws == [j \in 1..(e - i + 1) |-> toks[i + j - 1].w[1]]
                IN UNION { IF Len(k) <= Len(ws) /\ SubSeq(ws, 1, Len(k)) = k
                           THEN {[to |-> i - 1 + Len(k), k |-> "syn", w |-> a, id |-> "", nm |-> "",
                                  n |-> Len(k), m |-> Len(a), pure |-> FALSE] : a \in ToSet(R[k])} ELSE {}
                           : k \in {k \in DOMAIN R : k[1] = ws[1]} }
      Out(i) == IF toks[i].k = "w"
                THEN << [to |-> i, k |-> "w", w |-> toks[i].w, id |-> "", nm |-> "", n |-> 1, m |-> 1, pure |-> TRUE] >>
                     \o SetToSeq(Syn(i))
                ELSE LET all == UNION {Expand(x, R) : x \in {toks[i].w} \cup ToSet(Cands(c, toks[i].id))}
                     IN SetToSeq({[to |-> i, k |-> "ent", w |-> x.w, id |-> toks[i].id, nm |-> toks[i].nm,
                                   n |-> 0, m |-> Len(x.w), pure |-> x.pure] : x \in all})
  IN [n |-> n, out |-> [i \in 1..n |-> Out(i)]]     \* out[i]: edges leaving position i-1

Plain(g) == \A i \in 1..g.n : Len(g.out[i]) = 1
=============================================================================
