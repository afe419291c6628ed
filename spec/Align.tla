------------------------------- MODULE Align -------------------------------
(***************************************************************************)
(* Alignments, row by row.  A row is [r, h, c, k, id, nm, n, m]: reference *)
(* word (or <ins>), hypothesis word (or <del>), the class label as it is   *)
(* written, and what that label says: k = "" (no class), "ent" (id, nm) or *)
(* "syn" (n reference words stand as m words).                             *)
(*                                                                         *)
(* Where an alignment has got to in the reference's graph is a             *)
(* configuration <<p, e, o>>: at position p, having taken o words of edge  *)
(* e (0: not inside a span).  Different readings may share a prefix, so a  *)
(* prefix of an alignment determines a set of configurations.              *)
(***************************************************************************)
EXTENDS Readings, Distance

StartConfigs == {<<0, 0, 0>>}

Cur(g, x) == g.out[x[1] + 1][x[2]]

\* a span can only be left when all its words have been taken
Leave(g, S) ==
  { IF x[2] = 0 THEN x ELSE <<Cur(g, x).to, 0, 0>>
    : x \in {y \in S : y[2] = 0 \/ y[3] = Len(Cur(g, y).w)} }

SpanMatches(edge, row) ==
  CASE row.k = "syn" -> edge.k = "syn" /\ edge.n = row.n /\ edge.m = row.m
    [] row.k = "ent" -> edge.k = "ent" /\ edge.id = row.id /\ edge.nm = row.nm
    [] OTHER -> FALSE

Enter(g, S, row) ==
  UNION { {<<x[1], e, 0>> : e \in {e \in 1..Len(g.out[x[1] + 1]) : SpanMatches(g.out[x[1] + 1][e], row)}}
          : x \in {y \in S : y[1] < g.n} }

\* crossing into or out of a span costs nothing
Crossing(g, S, prev, row) ==
  IF row.c = prev THEN S
  ELSE IF row.k = "" THEN Leave(g, S) ELSE Enter(g, Leave(g, S), row)

TakeWord(g, S, w, inspan) ==
  IF inspan
  THEN {<<x[1], x[2], x[3] + 1>> : x \in {y \in S : y[3] < Len(Cur(g, y).w) /\ Cur(g, y).w[y[3] + 1] = w}}
  ELSE {<<x[1] + 1, 0, 0>> : x \in {y \in S : y[1] < g.n /\ \E e \in 1..Len(g.out[y[1] + 1]) :
                                        g.out[y[1] + 1][e].k = "w" /\ g.out[y[1] + 1][e].w[1] = w}}

RefStep(g, S, prev, row) ==
  LET S1 == Crossing(g, S, prev, row)
  IN IF row.r = INS THEN S1 ELSE TakeWord(g, S1, row.r, row.k # "")

\* all of the reference has been taken
RefDone(g, S) == \E x \in Leave(g, S) : x[1] = g.n

\* the hypothesis side: j words taken so far; -1 once it has gone wrong
HypStep(hyp, j, row) ==
  IF j < 0 THEN -1
  ELSE IF row.h = DEL THEN j
  ELSE IF j < Len(hyp) /\ hyp[j + 1] = row.h THEN j + 1 ELSE -1

IsIns(row) == row.r = INS
IsDel(row) == row.h = DEL
IsErr(row) == row.r # row.h
IsSub(row) == IsErr(row) /\ ~IsIns(row) /\ ~IsDel(row)
IsCor(row) == ~IsErr(row)
=============================================================================
