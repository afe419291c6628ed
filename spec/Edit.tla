-------------------------------- MODULE Edit --------------------------------
(***************************************************************************)
(* What the edit-distance routine promises of its two match maps: they are *)
(* the marks of a monotone walk through the two sequences that marks pairs *)
(* of equal elements only, and enough of them.                             *)
(***************************************************************************)
EXTENDS Distance

\* the positions marked in a map, in order
Marked(m) == SelectSeq([i \in 1..Len(m) |-> i], LAMBDA i : m[i] > 0)

MapsOK(a, b, ma, mb) ==
  LET p == Marked(ma)
      q == Marked(mb)
  IN /\ Len(ma) = Len(a) /\ Len(mb) = Len(b)
     /\ \A i \in 1..Len(ma) : ma[i] \in {1, -1}
     /\ \A i \in 1..Len(mb) : mb[i] \in {1, -1}
     /\ Len(p) = Len(q)
     /\ \A k \in 1..Len(p) : a[p[k]] = b[q[k]]

\* as many as any alignment with the fewest edits must have
EnoughOK(a, b, ma, d) == Len(Marked(ma)) >= Max2(Len(a), Len(b)) - d

\* more than cut unmarked positions in a row right before a marked one
Streak(m, cut) ==
  \E i \in 1..Len(m) : /\ m[i] > 0 /\ i - 1 > cut
                       /\ \A k \in (IF cut >= 0 THEN i - cut - 1 ELSE i)..(i - 1) : m[k] <= 0
=============================================================================
