---------------------------- MODULE TraceCompose ----------------------------
(***************************************************************************)
(* Walks through composed graphs of the real program.  A case has the      *)
(* inputs of Readings and the graph g: g.st[s] = [f, a], f whether s is     *)
(* final, a its arcs [i, o, w, to, k, id, nm, n, m]: input and output word   *)
(* ("" for none), twice the weight, target (a higher number), and what the  *)
(* input says when it is a class label.  s = 1 is the start.                *)
(*                                                                         *)
(* Every walk keeps the configurations of Align on its input side and the   *)
(* number of hypothesis words on its output side; a walk that can still end *)
(* must be the beginning of a reading and of the hypothesis.                *)
(***************************************************************************)
EXTENDS Align, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, phase, s, confs, outer, taken, graph, lowHyp, alive
vars == <<caseNo, phase, s, confs, outer, taken, graph, lowHyp, alive>>
view == <<caseNo, phase, s, confs, outer, taken>>
c == Cases[caseNo]
St == c.g.st

Init == /\ caseNo \in 1..Len(Cases) /\ phase = "load" /\ s = 1 /\ confs = StartConfigs
        /\ outer = "" /\ taken = 0 /\ graph = <<>> /\ lowHyp = <<>> /\ alive = {}

Say(what) == PrintT("VERDICT " \o ToString(c.id) \o (IF what = "" THEN "" ELSE ";C22 " \o what))

\* the states from which the end can be reached; arcs go to higher numbers
Alive(st) == FoldRight(LAMBDA x, a : IF st[x].f \/ \E q \in 1..Len(st[x].a) : st[x].a[q].to \in a
                                     THEN a \cup {x} ELSE a,
                       [x \in 1..Len(st) |-> x], {})

(* ---- what the arcs may cost ---------------------------------------------- *)
IsLabel(a) == a.k # ""
Cost(a) == CASE IsLabel(a) -> 0
             [] a.i = "" /\ a.o = "" -> 0
             [] a.i = "" \/ a.o = "" -> 2
             [] a.i = a.o -> 0
             [] OTHER -> 3
ArcOK(a) == \/ a.w = Cost(a)
            \/ ~IsLabel(a) /\ a.i = a.o /\ a.i # "" /\ a.w = 3     \* a word for itself, as a substitution: never worth it
ArcsOK == \A x \in 1..Len(St) : \A q \in 1..Len(St[x].a) : LET a == St[x].a[q] IN ArcOK(a) /\ (IsLabel(a) => a.o = "")

(* ---- the cheapest complete path, in arcs that cost and in weight ----------- *)
Far == 1000000
CheapestPath(st, price(_)) ==
  LET At(v, x) == FoldLeft(LAMBDA u, a : [u EXCEPT ![a.to] = Min2(@, v[x] + price(a))], v, st[x].a)
      v == FoldLeft(At, [x \in 1..Len(st) |-> IF x = 1 THEN 0 ELSE Far], [x \in 1..Len(st) |-> x])
  IN FoldSet(LAMBDA x, m : Min2(m, v[x]), Far, {x \in 1..Len(st) : st[x].f})
Edits(st) == CheapestPath(st, LAMBDA a : IF a.w > 0 THEN 1 ELSE 0)
Weight(st) == CheapestPath(st, LAMBDA a : a.w)

\* the least weight over all readings: insertions and deletions 2, substitutions 3
WRow(row, x, hyp, only) ==
  FoldLeft(LAMBDA q, j : Append(q, IF only THEN (IF hyp[j] = x THEN row[j] ELSE Far)
                                   ELSE Min2(Min2(row[j] + (IF hyp[j] = x THEN 0 ELSE 3), row[j + 1] + 2), q[j] + 2)),
           << IF only THEN Far ELSE row[1] + 2 >>, [j \in 1..Len(hyp) |-> j])
WIns(row) == FoldLeft(LAMBDA q, j : Append(q, Min2(row[j], q[j - 1] + 2)), << row[1] >>, [j \in 1..(Len(row) - 1) |-> j + 1])
LeastWeight(g, hyp, strict) ==
  LET At(V, i) == FoldLeft(LAMBDA a, e : [a EXCEPT ![e.to + 1] =
                       MinRow(FoldLeft(LAMBDA r, x : WRow(r, x, hyp, strict /\ ~e.pure), WIns(V[i]), e.w), @)],
                    V, g.out[i])
      V == FoldLeft(At, [i \in 1..(g.n + 1) |-> IF i = 1 THEN [j \in 1..(Len(hyp) + 1) |-> 2 * (j - 1)] ELSE <<>>],
                    [i \in 1..g.n |-> i])
  IN WIns(V[g.n + 1])[Len(hyp) + 1]

Loose(l) == 2 + l \div 8
GraphVerdict(g, lh, al) ==
  LET e == Edits(St)
      w == Weight(St)
      b == Errors(Best(g, lh))
      u == Errors(BestStrict(g, lh))
      wb == LeastWeight(g, lh, FALSE)
      wu == LeastWeight(g, lh, TRUE)
  IN CASE c.g.cyclic -> "cyclic"
       [] ~(1 \in al) -> "no complete path"
       [] ~ArcsOK -> "weights"
       [] e < b \/ w < wb -> "too cheap"
       [] c.o.ap = "standard" /\ (e > b \/ w > wb) -> "too dear"
       [] c.o.ap # "standard" /\ Plain(g) /\ (e > b \/ w > wb) -> "too dear"
       [] b = 0 /\ (e # 0 \/ w # 0) -> "no free path"
       \* where a rule matches, the adapted graph has no deletion of the words it matches
       [] c.o.ap # "standard" /\ (e > u + Loose(u) \/ w > wu + 3 * Loose(u)) -> "too dear"
       [] OTHER -> ""

Load == /\ phase = "load"
        /\ IF c.died THEN Say("died") /\ phase' = "end" /\ UNCHANGED <<graph, lowHyp, alive>>
           ELSE /\ graph' = Graph(c) /\ lowHyp' = LowerAll(c, HypWords(c)) /\ alive' = Alive(St)
                /\ LET v == GraphVerdict(graph', lowHyp', alive')
                   IN Say(v) /\ phase' = IF v = "" THEN "walk" ELSE "end"
        /\ UNCHANGED <<caseNo, s, confs, outer, taken>>

\* ---- one arc
InSide(a) == CASE IsLabel(a) /\ outer = "" -> [x |-> Enter(graph, confs, a), o |-> a.i]
               [] IsLabel(a) /\ outer = a.i -> [x |-> Leave(graph, confs), o |-> ""]
               [] IsLabel(a) \/ a.i = "" -> [x |-> confs, o |-> outer]      \* a class within a class says nothing
               [] OTHER -> [x |-> TakeWord(graph, confs, a.i, outer # ""), o |-> outer]
OutSide(a) == CASE a.o = "" -> taken
                [] taken < Len(lowHyp) /\ lowHyp[taken + 1] = a.o -> taken + 1
                [] OTHER -> -1

TakeArc(kind(_)) ==
  /\ phase = "walk"
  /\ \E q \in 1..Len(St[s].a) :
       LET a == St[s].a[q]
           in == InSide(a)
           t == OutSide(a)
       IN /\ kind(a) /\ a.to \in alive
          /\ IF in.x = {} THEN Say("not a reading") /\ phase' = "end"
             ELSE IF t < 0 THEN Say("not the hypothesis") /\ phase' = "end"
             ELSE phase' = "walk"
          /\ s' = a.to /\ confs' = in.x /\ outer' = in.o /\ taken' = t
          /\ UNCHANGED <<caseNo, graph, lowHyp, alive>>
Label == TakeArc(LAMBDA a : IsLabel(a))
Skip == TakeArc(LAMBDA a : ~IsLabel(a) /\ a.i = "" /\ a.o = "")
Insert == TakeArc(LAMBDA a : ~IsLabel(a) /\ a.i = "" /\ a.o # "")
Delete == TakeArc(LAMBDA a : ~IsLabel(a) /\ a.i # "" /\ a.o = "")
Pair == TakeArc(LAMBDA a : ~IsLabel(a) /\ a.i # "" /\ a.o # "")

Finish == /\ phase = "walk" /\ St[s].f
          /\ IF ~RefDone(graph, confs) \/ outer # "" THEN Say("not all of the reference")
             ELSE IF taken # Len(lowHyp) THEN Say("not all of the hypothesis") ELSE TRUE
          /\ phase' = "end"
          /\ UNCHANGED <<caseNo, s, confs, outer, taken, graph, lowHyp, alive>>

Next == Load \/ Label \/ Skip \/ Insert \/ Delete \/ Pair \/ Finish
=============================================================================
