------------------------------ MODULE Distance ------------------------------
(***************************************************************************)
(* The fewest edits.  Costs are pairs (errors, reference words), coded as  *)
(* errors * K + words, so that the minimum is the fewest errors and, among *)
(* the readings with that many, the fewest words (the highest error rate). *)
(***************************************************************************)
EXTENDS Words

K == 4096
INF == 400000 * K
Errors(v) == v \div K
WordsOf(v) == v % K

(* one more reference word x: row[j+1] is the cost of aligning what came   *)
(* before with the first j words of hyp                                    *)
WordRow(row, x, hyp) ==
  FoldLeft(LAMBDA q, j : Append(q, Min2(Min2(row[j] + (IF hyp[j] = x THEN 1 ELSE K + 1), row[j + 1] + K + 1), q[j] + K)),
           << row[1] + K + 1 >>, [j \in 1..Len(hyp) |-> j])
\* the same, when x may only be matched by the very same word
ExactRow(row, x, hyp) ==
  [j \in 1..(Len(hyp) + 1) |-> IF j > 1 /\ hyp[j - 1] = x THEN row[j - 1] + 1 ELSE INF]
\* hypothesis words inserted at this point
InsRow(row) == FoldLeft(LAMBDA q, j : Append(q, Min2(row[j], q[j - 1] + K)),
                        << row[1] >>, [j \in 1..(Len(row) - 1) |-> j + 1])

MinRow(a, b) == IF b = <<>> THEN a ELSE [j \in 1..Len(a) |-> Min2(a[j], b[j])]

Row0(hyp) == [j \in 1..(Len(hyp) + 1) |-> (j - 1) * K]

EdgeRow(row, e, hyp) == FoldLeft(LAMBDA r, x : WordRow(r, x, hyp), row, e.w)
EdgeRowX(row, e, hyp) == FoldLeft(LAMBDA r, x : ExactRow(r, x, hyp), row, e.w)

\* strict: alternatives brought in by rules only where they occur word for word
GraphRows(g, hyp, strict) ==
  LET At(V, i) ==
        LET row == IF strict THEN InsRow(V[i]) ELSE V[i]
        IN FoldLeft(LAMBDA a, e : [a EXCEPT ![e.to + 1] =
                       MinRow(IF strict /\ ~e.pure THEN EdgeRowX(row, e, hyp) ELSE EdgeRow(row, e, hyp), @)],
                    V, g.out[i])
  IN FoldLeft(At, [i \in 1..(g.n + 1) |-> IF i = 1 THEN Row0(hyp) ELSE <<>>], [i \in 1..g.n |-> i])

Best(g, hyp) == LET V == GraphRows(g, hyp, FALSE) IN V[g.n + 1][Len(hyp) + 1]
BestStrict(g, hyp) == LET V == GraphRows(g, hyp, TRUE) IN InsRow(V[g.n + 1])[Len(hyp) + 1]

(* ---- the cheapest alignments when an inserted or a deleted word costs 2    *)
(* and a substituted one 3: among these the one with the most errors, and then *)
(* the fewest words.  Coded (cost, KW - 1 - errors, words).                        *)
KW == 512
CInsW == 2 * KW * KW - KW
CDelW == 2 * KW * KW - KW + 1
CSubW == 3 * KW * KW - KW + 1
CheapWord(row, x, hyp) ==
  FoldLeft(LAMBDA q, j : Append(q, Min2(Min2(row[j] + (IF hyp[j] = x THEN 1 ELSE CSubW), row[j + 1] + CDelW), q[j] + CInsW)),
           << row[1] + CDelW >>, [j \in 1..Len(hyp) |-> j])
Cheapest(g, hyp) ==
  LET At(V, i) == FoldLeft(LAMBDA a, e : [a EXCEPT ![e.to + 1] =
                       MinRow(FoldLeft(LAMBDA r, x : CheapWord(r, x, hyp), V[i], e.w), @)], V, g.out[i])
      row0 == [j \in 1..(Len(hyp) + 1) |-> (KW - 1) * KW + (j - 1) * CInsW]
      V == FoldLeft(At, [i \in 1..(g.n + 1) |-> IF i = 1 THEN row0 ELSE <<>>], [i \in 1..g.n |-> i])
      v == V[g.n + 1][Len(hyp) + 1]
  IN [e |-> KW - (((v \div KW) % KW) + 1), w |-> v % KW]

(* ---- plain sequences ------------------------------------------------------ *)
Levenshtein(a, b) ==
  LET last == FoldLeft(LAMBDA row, x : WordRow(row, x, b), Row0(b), a)
  IN Errors(last[Len(b) + 1])

(* ---- the search's limit ----------------------------------------------------- *)
(* The search grows all alignments row by row, and gives up those with over 20  *)
(* errors more than others that have as many rows.  An optimal alignment P can  *)
(* only be lost that way if at some row t its first t rows have over 20 errors  *)
(* more than the first t rows of another.  Below, B(t) is a lower bound for the *)
(* errors of t rows: with i words of a and j of b there are at least the edit   *)
(* distance of the two prefixes and at least the 2t - i - j rows without a pair. *)
Slack == 20
Table(a, b) == FoldLeft(LAMBDA T, x : Append(T, WordRow(T[Len(T)], x, b)), << Row0(b) >>, a)
\* the errors of the first 0, 1, ... rows of an optimal alignment
OptimalErrors(a, b, T) ==
  LET E(i, j) == Errors(T[i + 1][j + 1])
      Back(p) == LET i == p[1]
                     j == p[2]
                 IN IF i > 0 /\ j > 0 /\ E(i, j) = E(i - 1, j - 1) + (IF a[i] = b[j] THEN 0 ELSE 1) THEN <<i - 1, j - 1>>
                    ELSE IF i > 0 /\ E(i, j) = E(i - 1, j) + 1 THEN <<i - 1, j>> ELSE <<i, j - 1>>
      st == FoldLeft(LAMBDA q, k : IF q.p = <<0, 0>> THEN q
                                   ELSE LET p == Back(q.p) IN [p |-> p, es |-> << E(p[1], p[2]) >> \o q.es],
                     [p |-> <<Len(a), Len(b)>>, es |-> << E(Len(a), Len(b)) >>], [k \in 1..(Len(a) + Len(b)) |-> k])
  IN st.es
LeastErrors(a, b, T, t) ==
  LET E(i, j) == Errors(T[i + 1][j + 1])
      UpTo(lo, hi) == [k \in 1..(IF hi < lo THEN 0 ELSE hi - lo + 1) |-> lo + k - 1]
  IN FoldLeft(LAMBDA m, i : FoldLeft(LAMBDA q, j : Min2(q, Max2(E(i, j), 2 * t - i - j)), m,
                                     UpTo(Max2(0, t - i), Min2(t, Len(b)))),
              INF, UpTo(0, Min2(t, Len(a))))
\* may an optimal alignment fall behind others by more than the search puts up with?
MayFallBehind(a, b) ==
  LET T == Table(a, b)
      es == OptimalErrors(a, b, T)
      n == Len(es) - 1
      step == 10
  IN \E k \in 0..(n \div step) : es[Min2(n, (k + 1) * step) + 1] > LeastErrors(a, b, T, k * step) + Slack
=============================================================================
