------------------------------ MODULE Metrics ------------------------------
(***************************************************************************)
(* What is counted in an alignment.                                        *)
(***************************************************************************)
EXTENDS Stitch

Zero == [i |-> 0, d |-> 0, s |-> 0, w |-> 0]
Count(a, row) == [i |-> a.i + (IF IsIns(row) THEN 1 ELSE 0), d |-> a.d + (IF IsDel(row) THEN 1 ELSE 0),
                  s |-> a.s + (IF IsSub(row) THEN 1 ELSE 0), w |-> a.w + (IF IsIns(row) THEN 0 ELSE 1)]
Plus(a, b) == [i |-> a.i + b.i, d |-> a.d + b.d, s |-> a.s + b.s, w |-> a.w + b.w]
Tally(rows) == FoldLeft(Count, Zero, rows)
Errs(a) == a.i + a.d + a.s

\* a function from keys to tallies, one key per row ("" included)
AddAt(f, k, row) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = Count(@, row)] ELSE f @@ (k :> Count(Zero, row))
NoTallies == [x \in {} |-> Zero]

(* ---- classes -------------------------------------------------------------- *)
ClassTallies(rows) ==
  FoldLeft(LAMBDA f, row : IF row.k = "" THEN f ELSE AddAt(f, row.nm, row), NoTallies, rows)

(* ---- speakers: an inserted word counts for whoever spoke last ------------- *)
SpeakerTallies(rows, st) ==
  LET fin == FoldLeft(LAMBDA a, i :
                LET sp == IF st[i].nl.s = "" THEN a.who ELSE st[i].nl.s
                IN [who |-> sp, f |-> Append(a.f, sp)], [who |-> "", f |-> <<>>], [i \in 1..Len(rows) |-> i]).f
      first == IF \E i \in 1..Len(fin) : fin[i] # "" THEN
                 fin[CHOOSE i \in 1..Len(fin) : fin[i] # "" /\ \A q \in 1..(i - 1) : fin[q] = ""] ELSE ""
      \* words inserted before anyone spoke go to the first speaker
      who == [i \in 1..Len(fin) |-> IF fin[i] = "" THEN first ELSE fin[i]]
  IN FoldLeft(LAMBDA f, i : AddAt(f, who[i], rows[i]), NoTallies, [i \in 1..Len(rows) |-> i])

(* ---- speaker switches ------------------------------------------------------ *)
\* idx[i]: how many reference words stand before row i
WordsBefore(rows) ==
  FoldLeft(LAMBDA a, row : [n |-> IF IsIns(row) THEN a.n ELSE a.n + 1, f |-> Append(a.f, a.n)],
           [n |-> 0, f |-> <<>>], rows).f
Switches(rows, st) ==
  LET idx == WordsBefore(rows)
  IN FoldLeft(LAMBDA a, i :
        IF st[i].nl.s = "" \/ st[i].nl.s = a.who THEN a
        ELSE [who |-> st[i].nl.s, f |-> IF a.who = "" THEN a.f ELSE Append(a.f, idx[i])],
        [who |-> "", f |-> <<>>], [i \in 1..Len(rows) |-> i]).f
SwitchTally(rows, st, ctx) ==
  LET idx == WordsBefore(rows)
      sw == Switches(rows, st)
      \* the first switch whose window is not over yet
      Next(i) == {k \in 1..Len(sw) : idx[i] < sw[k] + ctx /\ \A q \in 1..(k - 1) : idx[i] >= sw[q] + ctx}
      In(i) == \E k \in Next(i) : IF IsIns(rows[i]) THEN idx[i] > sw[k] - ctx ELSE idx[i] >= sw[k] - ctx
  IN FoldLeft(LAMBDA a, i : IF In(i) THEN Count(a, rows[i]) ELSE a, Zero, [i \in 1..Len(rows) |-> i])

(* ---- sentences -------------------------------------------------------------- *)
SentenceTallies(rows, st) ==
  LET r == FoldLeft(LAMBDA a, i :
              LET now == Count(a.cur, rows[i])
              IN IF st[i].nl.p \in {".", "?", "!"} THEN [cur |-> Zero, out |-> Append(a.out, now)]
                 ELSE [a EXCEPT !.cur = now],
              [cur |-> Zero, out |-> <<>>], [i \in 1..Len(rows) |-> i])
  IN IF r.cur.w > 0 THEN Append(r.out, r.cur) ELSE r.out

(* ---- tags -------------------------------------------------------------------- *)
TagTallies(rows, st) ==
  FoldLeft(LAMBDA f, i : FoldLeft(LAMBDA ff, t : AddAt(ff, t, rows[i]), f, st[i].nl.g),
           NoTallies, [i \in 1..Len(rows) |-> i])

(* ---- words and pairs of words ------------------------------------------------ *)
ZeroGram == [c |-> 0, i |-> 0, d |-> 0, fp |-> 0, fn |-> 0]
Bump(f, k, fld) ==
  LET old == IF k \in DOMAIN f THEN f[k] ELSE ZeroGram
      new == CASE fld = "c" -> [old EXCEPT !.c = @ + 1]
               [] fld = "i" -> [old EXCEPT !.i = @ + 1]
               [] fld = "d" -> [old EXCEPT !.d = @ + 1]
               [] fld = "fp" -> [old EXCEPT !.fp = @ + 1]
               [] OTHER -> [old EXCEPT !.fn = @ + 1]
  IN IF k \in DOMAIN f THEN [f EXCEPT ![k] = new] ELSE f @@ (k :> new)
NoGrams == [x \in {} |-> ZeroGram]
Unigrams(rows) ==
  FoldLeft(LAMBDA f, row :
     IF IsCor(row) THEN Bump(f, row.r, "c")
     ELSE IF IsIns(row) THEN Bump(f, row.h, "i")
     ELSE IF IsDel(row) THEN Bump(f, row.r, "d")
     ELSE Bump(Bump(f, row.r, "fn"), row.h, "fp"), NoGrams, rows)
Bigrams(rows) ==
  FoldLeft(LAMBDA f, i :
     LET a == rows[i]
         b == rows[i + 1]
         rok == ~IsIns(a) /\ ~IsIns(b)
         hok == ~IsDel(a) /\ ~IsDel(b)
         rb == a.r \o " " \o b.r
         hb == a.h \o " " \o b.h
         f1 == IF rok /\ hok THEN IF rb = hb THEN Bump(f, rb, "c") ELSE Bump(Bump(f, rb, "fn"), hb, "fp") ELSE f
         f2 == IF rok /\ ~hok THEN Bump(f1, rb, "d") ELSE f1
     IN IF hok /\ ~rok THEN Bump(f2, hb, "i") ELSE f2,
     NoGrams, [i \in 1..Max2(0, Len(rows) - 1) |-> i])
GramSum(u) == u.c + u.i + u.d + u.fp + u.fn

(* ---- groups of errors ---------------------------------------------------------- *)
Groups(rows) ==
  LET Close(a) == IF a.l = 0 THEN a.out
                  ELSE Append(a.out, [l |-> a.l, r |-> IF a.r = "" THEN "*** " ELSE a.r,
                                      h |-> IF a.h = "" THEN " ***" ELSE a.h])
      r == FoldLeft(LAMBDA a, i :
              IF IsCor(rows[i]) THEN [l |-> 0, r |-> "", h |-> "", out |-> Close(a)]
              ELSE [l |-> IF a.l = 0 THEN i + 1 ELSE a.l,
                    r |-> IF IsIns(rows[i]) THEN a.r ELSE a.r \o rows[i].r \o " ",
                    h |-> IF IsDel(rows[i]) THEN a.h ELSE a.h \o " " \o rows[i].h,
                    out |-> a.out],
              [l |-> 0, r |-> "", h |-> "", out |-> <<>>], [i \in 1..Len(rows) |-> i])
  IN Close(r)

(* ---- letter case ------------------------------------------------------------------ *)
\* orig: the hypothesis' words as they were written
CaseStats(rows, st, orig) ==
  FoldLeft(LAMBDA a, i :
     LET row == rows[i]
         j == IF IsDel(row) THEN a.j ELSE a.j + 1
         hu == Capitals(orig[j])
         ru == Capitals(st[i].nl.t)
         what == IF st[i].nl.ca = "LC" THEN (IF hu > 0 THEN "fp" ELSE "none")
                 ELSE IF ru = hu THEN "tp" ELSE IF ru > hu THEN "fn" ELSE "fp"
         Upd(x) == [tp |-> x.tp + (IF what = "tp" THEN 1 ELSE 0), fp |-> x.fp + (IF what = "fp" THEN 1 ELSE 0),
                    fn |-> x.fn + (IF what = "fn" THEN 1 ELSE 0)]
     IN IF IsIns(row) \/ IsDel(row) THEN [a EXCEPT !.j = j]
        ELSE [j |-> j, all |-> Upd(a.all), mat |-> IF IsCor(row) THEN Upd(a.mat) ELSE a.mat],
     [j |-> 0, all |-> [tp |-> 0, fp |-> 0, fn |-> 0], mat |-> [tp |-> 0, fp |-> 0, fn |-> 0]],
     [i \in 1..Len(rows) |-> i])
=============================================================================
