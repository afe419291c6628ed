------------------------------ MODULE Stitch ------------------------------
(***************************************************************************)
(* Giving the rows of an alignment back the metadata of the reference's    *)
(* NLP rows.  A stitch is [cm, nl, on]: the comment, the NLP record, and   *)
(* whether a record was attached.                                          *)
(***************************************************************************)
EXTENDS Align

EmptyNlp == [t |-> "", s |-> "", p |-> "", pp |-> "", ca |-> "", lb |-> "", li |-> "", ln |-> "",
             g |-> <<>>, ts |-> "", et |-> "", cf |-> ""]

Comment(row) == IF IsIns(row) THEN "ins" ELSE IF IsDel(row) THEN "del"
                ELSE IF IsSub(row) THEN "sub(" \o row.h \o ")" ELSE ""

\* how many rows from i on carry row i's class
RunOfClass(rows, i) ==
  LET other == {p \in i..Len(rows) : rows[p].c # rows[i].c}
  IN (IF other = {} THEN Len(rows) + 1 ELSE CHOOSE p \in other : \A q \in other : p <= q) - i

RunOfLabel(nlp, q) ==
  LET other == {p \in q..Len(nlp) : nlp[p].li # nlp[q].li \/ nlp[p].ln # nlp[q].ln}
  IN (IF other = {} THEN Len(nlp) + 1 ELSE CHOOSE p \in other : \A z \in other : p <= z) - q

\* the records for k rows that stand for the q records nlp[f..f+q-1], with the remark made
Spread(nlp, f, q, k) ==
  LET a == nlp[f]
      b == nlp[f + q - 1]
      bare == [a EXCEPT !.p = "", !.pp = "", !.ca = "LC", !.cf = ""]
      blank == [EmptyNlp EXCEPT !.s = a.s, !.ca = "LC", !.lb = a.lb, !.g = a.g]
  IN CASE k = q /\ k = 1 -> [rec |-> <<a>>, why |-> ""]
       [] k = q -> [rec |-> [x \in 1..k |-> nlp[f + x - 1]], why |-> ",direct"]
       [] q = 1 -> [rec |-> [x \in 1..k |-> IF x = 1 THEN [bare EXCEPT !.ca = a.ca]
                                            ELSE IF x = k THEN [a EXCEPT !.ca = "LC"] ELSE bare],
                    why |-> ",push_last"]
       [] k = 1 -> [rec |-> <<[a EXCEPT !.p = b.p]>>, why |-> ",split_worst"]
       [] OTHER -> [rec |-> [x \in 1..k |-> IF x = 1 THEN a ELSE IF x = k THEN b ELSE blank],
                    why |-> ",split_worst"]

\* one step: the row at st.i, or the whole span that starts there
StitchStep(rows, nlp, st) ==
  LET i == st.i
      row == rows[i]
      Bare(r) == [cm |-> Comment(r), nl |-> EmptyNlp, on |-> FALSE]
  IN IF IsIns(row) \/ st.q > Len(nlp)
     THEN [i |-> i + 1, q |-> st.q, out |-> Append(st.out, Bare(row))]
     ELSE IF row.k = ""
     THEN [i |-> i + 1, q |-> st.q + 1,
           out |-> Append(st.out, [cm |-> Comment(row), nl |-> nlp[st.q], on |-> TRUE])]
     ELSE LET k == RunOfClass(rows, i)
              q == Min2(IF row.k = "syn" THEN row.n ELSE RunOfLabel(nlp, st.q), Len(nlp) - st.q + 1)
              sp == Spread(nlp, st.q, q, k)
          IN [i |-> i + k, q |-> st.q + q,
              out |-> st.out \o [x \in 1..k |-> [cm |-> Comment(rows[i + x - 1]) \o sp.why,
                                                 nl |-> sp.rec[x], on |-> TRUE]]]

Stitches(rows, nlp) ==
  FoldLeft(LAMBDA st, i : IF st.i = i THEN StitchStep(rows, nlp, st) ELSE st,
           [i |-> 1, q |-> 1, out |-> <<>>], [i \in 1..Len(rows) |-> i]).out

\* What the rows of reference words should be given: an inserted word takes no
\* record away from them.  The program counts the words inserted inside a span
\* as words of the span (a known finding).
StitchStepIdeal(rows, nlp, st) ==
  LET step == StitchStep(rows, nlp, st)
      i == st.i
      k == step.i - i
      own == SelectSeq([x \in 1..k |-> i + x - 1], LAMBDA x : ~IsIns(rows[x]))
      sp == Spread(nlp, st.q, step.q - st.q, Len(own))
  IN IF rows[i].k = "" \/ IsIns(rows[i]) \/ step.q = st.q \/ Len(own) = k THEN step
     ELSE [step EXCEPT !.out = FoldLeft(LAMBDA o, x :
             [o EXCEPT ![own[x]] = [cm |-> Comment(rows[own[x]]) \o sp.why, nl |-> sp.rec[x], on |-> TRUE]],
             @, [x \in 1..Len(own) |-> x])]

StitchesIdeal(rows, nlp) ==
  FoldLeft(LAMBDA st, i : IF st.i = i THEN StitchStepIdeal(rows, nlp, st) ELSE st,
           [i |-> 1, q |-> 1, out |-> <<>>], [i \in 1..Len(rows) |-> i]).out

(* ---- the aligned NLP file ------------------------------------------------ *)
NlpLine(row, st) ==
  LET same == Lower(row.r) = Lower(st.nl.t)
      tok == IF same \/ IsNoise(st.nl.t) THEN st.nl.t ELSE IF IsIns(row) THEN "" ELSE row.r
  IN [t |-> tok, s |-> st.nl.s, p |-> st.nl.p, pp |-> st.nl.pp, ca |-> st.nl.ca, lb |-> st.nl.lb,
      g |-> st.nl.g, ots |-> st.nl.ts, oet |-> st.nl.et, cf |-> st.nl.cf,
      cm |-> IF IsIns(row) /\ ~same /\ ~IsNoise(st.nl.t) THEN "ins(" \o row.h \o ")" ELSE st.cm]

\* which rows have a line in that file
Written(rows, addins) == SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i : addins \/ ~IsIns(rows[i]))
=============================================================================
