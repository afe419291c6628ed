---------------------------- MODULE TraceLattice ----------------------------
(***************************************************************************)
(* Runs whose hypothesis is a word lattice: c.pre[s] lists the arcs        *)
(* [f, w] into state s, c.fin its final states, state 1 its start.  Arcs   *)
(* go from lower to higher states; w = "" is an arc without a word.        *)
(* The rows are replayed against the reference's graph (Align) and, at the *)
(* same time, against the lattice.                                         *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, phase, rowNo, confs, lastClass, places, graph, broken
vars == <<caseNo, phase, rowNo, confs, lastClass, places, graph, broken>>
view == <<caseNo, phase, rowNo, confs, lastClass, places, broken>>
c == Cases[caseNo]
Sts == 1..Len(c.pre)

\* everything that can be reached without a word
Closure(P) ==
  FoldLeft(LAMBDA a, s : IF s \in a \/ \E k \in 1..Len(c.pre[s]) : c.pre[s][k].w = "" /\ c.pre[s][k].f \in a
                         THEN a \cup {s} ELSE a, P, [s \in Sts |-> s])
Move(P, w) == Closure({s \in Sts : \E k \in 1..Len(c.pre[s]) : c.pre[s][k].w = w /\ c.pre[s][k].f \in P})
Fin == {c.fin[k] : k \in 1..Len(c.fin)}
Start == Closure({1})
\* does the lattice have a path at all?
Reachable == FoldLeft(LAMBDA a, s : IF s \in a \/ \E k \in 1..Len(c.pre[s]) : c.pre[s][k].f \in a THEN a \cup {s} ELSE a,
                      {1}, [s \in Sts |-> s])
HasPath == Reachable \cap Fin # {}

Init == /\ caseNo \in 1..Len(Cases) /\ phase = "load" /\ rowNo = 0 /\ confs = StartConfigs
        /\ lastClass = "" /\ places = {} /\ graph = <<>> /\ broken = ""

Complete == c.st = "exit 0" /\ c.full
NoReport == /\ phase = "load" /\ ~Complete
            /\ broken' = (IF HasPath THEN "C19" ELSE "")
            /\ phase' = "done"
            /\ UNCHANGED <<caseNo, rowNo, confs, lastClass, places, graph>>
Load == /\ phase = "load" /\ Complete
        /\ graph' = Graph(c) /\ places' = Start /\ phase' = "rows"
        /\ UNCHANGED <<caseNo, rowNo, confs, lastClass, broken>>

RowIs(kind(_)) == phase = "rows" /\ rowNo < Len(c.rows) /\ kind(c.rows[rowNo + 1])
TakeRow == LET row == c.rows[rowNo + 1] IN
  /\ rowNo' = rowNo + 1
  /\ confs' = RefStep(graph, confs, lastClass, row)
  /\ lastClass' = row.c
  /\ places' = (IF row.h = DEL THEN places ELSE Move(places, row.h))
  /\ UNCHANGED <<caseNo, phase, graph, broken>>
Match == RowIs(IsCor) /\ TakeRow
Substitute == RowIs(IsSub) /\ TakeRow
Insert == RowIs(IsIns) /\ TakeRow
Delete == RowIs(IsDel) /\ TakeRow

(* ---- the fewest errors over all paths and readings ------------------------ *)
LWord(row, x, cm, cs, cd, ci) ==
  FoldLeft(LAMBDA q, s : Append(q,
             FoldLeft(LAMBDA m, a : Min2(m, IF a.w = "" THEN q[a.f]
                                            ELSE Min2(row[a.f] + (IF a.w = x THEN cm ELSE cs), q[a.f] + ci)),
                      Min2(row[s] + cd, INF), c.pre[s])),
           << >>, [s \in Sts |-> s])
LRow0(z, ci) ==
  FoldLeft(LAMBDA q, s : Append(q, FoldLeft(LAMBDA m, a : Min2(m, q[a.f] + (IF a.w = "" THEN 0 ELSE ci)),
                                            IF s = 1 THEN z ELSE INF, c.pre[s])), << >>, [s \in Sts |-> s])
LBest(z, cm, cs, cd, ci) ==
  LET At(V, i) == FoldLeft(LAMBDA a, e : [a EXCEPT ![e.to + 1] =
                       MinRow(FoldLeft(LAMBDA r, x : LWord(r, x, cm, cs, cd, ci), V[i], e.w), @)], V, graph.out[i])
      V == FoldLeft(At, [i \in 1..(graph.n + 1) |-> IF i = 1 THEN LRow0(z, ci) ELSE <<>>], [i \in 1..graph.n |-> i])
  IN FoldSet(LAMBDA s, m : Min2(m, V[graph.n + 1][s]), INF, Fin)

ErrorsOK ==
  LET t == Tally(c.rows)
      e == Errs(t)
      v == LBest(0, 1, K + 1, K + 1, K)
      l == Errors(v)
      y == LBest((KW - 1) * KW, 1, CSubW, CDelW, CInsW)
      ye == KW - (((y \div KW) % KW) + 1)
      yw == y % KW
  IN /\ e >= l
     /\ \/ e = l \/ e * WordsOf(v) <= l * t.w
        \/ l > 0 /\ (e <= ye \/ e * yw <= ye * t.w)

End == /\ phase = "rows" /\ rowNo = Len(c.rows)
       /\ phase' = "done"
       /\ broken' = (IF /\ places \cap Fin # {}
                        /\ RefDone(graph, confs)
                        /\ ErrorsOK
                        /\ MarksOK(c) /\ RowShapesOK(c) /\ TotalsOK(c, Tally(c.rows)) /\ StdoutOK(c, Tally(c.rows))
                     THEN "" ELSE IF places \cap Fin = {} THEN "C19 path" ELSE IF ~RefDone(graph, confs) THEN "C19 reading"
                     ELSE IF ~ErrorsOK THEN "C19 errors" ELSE "C19 figures")
       /\ UNCHANGED <<caseNo, rowNo, confs, lastClass, places, graph>>
Verdict == /\ phase = "done"
           /\ PrintT("VERDICT " \o ToString(c.id) \o (IF broken = "" THEN "" ELSE ";" \o broken))
           /\ phase' = "judged"
           /\ UNCHANGED <<caseNo, rowNo, confs, lastClass, places, graph, broken>>
Next == NoReport \/ Load \/ Match \/ Substitute \/ Insert \/ Delete \/ End \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
