----------------------------- MODULE EditModel -----------------------------
(***************************************************************************)
(* The edit-distance routine as it works: rows of distances, then a walk   *)
(* back from the last cell.  The walk keeps two rows, d (the current one)   *)
(* and e (the one above), and refreshes both after every step, also after  *)
(* one to the left.  Checked for every pair of sequences over Alphabet up   *)
(* to MaxLen, shorter one first: the distance is exact, the maps are       *)
(* MapsOK and mark enough.                                                 *)
(***************************************************************************)
EXTENDS Edit

CONSTANTS Alphabet, MaxLen

VARIABLES a, b,     \* the sequences, a no longer than b
          pc,       \* "fill", "back", "done"
          rows,     \* rows of distances: rows[j+1][i+1]
          i, j,     \* where the walk is
          d, e,     \* the two rows it looks at
          ma, mb    \* the maps
vars == <<a, b, pc, rows, i, j, d, e, ma, mb>>

Seqs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
\* values only matter up to renaming
Canonical(s) == \A k \in 1..Len(s) : s[k] <= 1 + FoldLeft(LAMBDA m, x : Max2(m, x), 0, SubSeq(s, 1, k - 1))

Init == /\ a \in Seqs /\ b \in Seqs /\ Len(a) <= Len(b) /\ Canonical(a \o b)
        /\ rows = << [k \in 1..(Len(a) + 1) |-> k - 1] >>
        /\ pc = IF Len(a) = 0 THEN "done" ELSE "fill"
        /\ i = Len(a) /\ j = Len(b) /\ d = <<>> /\ e = <<>>
        /\ ma = [k \in 1..Len(a) |-> -1] /\ mb = [k \in 1..Len(b) |-> -1]

NextRow(p, x) ==
  FoldLeft(LAMBDA q, k : Append(q, IF a[k] = x THEN p[k] ELSE 1 + Min2(q[k], Min2(p[k + 1], p[k]))),
           << p[1] + 1 >>, [k \in 1..Len(a) |-> k])
Fill == /\ pc = "fill"
        /\ IF Len(rows) <= Len(b)
           THEN rows' = Append(rows, NextRow(rows[Len(rows)], b[Len(rows)])) /\ UNCHANGED <<pc, d, e>>
           ELSE pc' = "back" /\ d' = rows[Len(b) + 1] /\ e' = rows[Len(b)] /\ UNCHANGED rows
        /\ UNCHANGED <<a, b, i, j, ma, mb>>

nw == e[i]
n == e[i + 1]
w == d[i]
Least == Min2(nw, Min2(n, w))
Refresh(i2, j2) == /\ i' = i2 /\ j' = j2
                   /\ IF i2 > 0 /\ j2 > 0 THEN d' = e /\ e' = rows[j2] /\ UNCHANGED pc
                      ELSE pc' = "done" /\ UNCHANGED <<d, e>>
Diagonal == /\ pc = "back" /\ Least = nw
            /\ IF a[i] = b[j] THEN ma' = [ma EXCEPT ![i] = 1] /\ mb' = [mb EXCEPT ![j] = 1]
               ELSE UNCHANGED <<ma, mb>>
            /\ Refresh(i - 1, j - 1) /\ UNCHANGED <<a, b, rows>>
Left == /\ pc = "back" /\ Least # nw /\ Least = w
        /\ Refresh(i - 1, j) /\ UNCHANGED <<a, b, rows, ma, mb>>
Up == /\ pc = "back" /\ Least # nw /\ Least # w
      /\ Refresh(i, j - 1) /\ UNCHANGED <<a, b, rows, ma, mb>>
Next == Fill \/ Diagonal \/ Left \/ Up

Dist == IF Len(a) = 0 THEN Len(b) ELSE rows[Len(b) + 1][Len(a) + 1]
Exact == pc = "done" => Dist = Levenshtein(a, b)
TrueMatches == MapsOK(a, b, ma, mb)
Enough == pc = "done" => EnoughOK(a, b, ma, Dist)
=============================================================================
