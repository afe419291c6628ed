------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Words as the aligner sees them: strings, their lower-case form, their   *)
(* capitals, their hyphens.  TLC evaluates Len, SubSeq and \o on strings.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

INS == "<ins>"
DEL == "<del>"

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

AsciiUp == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
AsciiLo == "abcdefghijklmnopqrstuvwxyz"
OtherUp == "ÀÁÂÄÇÈÉÊËÍÎÏÑÓÔÖØÚÛÜŠŽÆŒΑΒΔΣЖДЯАБВ"
OtherLo == "àáâäçèéêëíîïñóôöøúûüšžæœαβδσждяабв"

MapOf(up, lo) == [x \in {SubSeq(up, i, i) : i \in 1..Len(up)} |->
                    LET k == CHOOSE i \in 1..Len(up) : SubSeq(up, i, i) = x IN SubSeq(lo, k, k)]
AsciiLower == MapOf(AsciiUp, AsciiLo)
AllLower == MapOf(AsciiUp \o OtherUp, AsciiLo \o OtherLo)
AsciiUpSet == DOMAIN AsciiLower
AllUpSet == DOMAIN AllLower

Lower(s) == IF \A i \in 1..Len(s) : SubSeq(s, i, i) \notin AllUpSet THEN s
            ELSE FoldLeft(LAMBDA a, x : a \o (IF x \in AllUpSet THEN AllLower[x] ELSE x), "", Chars(s))

\* the number of (ASCII) capitals in a word
Capitals(s) == Cardinality({i \in 1..Len(s) : SubSeq(s, i, i) \in AsciiUpSet})

HyphenAt(s) == IF \E i \in 1..Len(s) : SubSeq(s, i, i) = "-"
               THEN CHOOSE i \in 1..Len(s) : /\ SubSeq(s, i, i) = "-"
                                             /\ \A k \in 1..(i-1) : SubSeq(s, k, k) # "-"
               ELSE 0

\* a word without the hyphens it ends in
Unhyphened(s) == LET k == {i \in 1..Len(s) : SubSeq(s, i, i) # "-"}
           IN IF k = {} THEN "" ELSE SubSeq(s, 1, CHOOSE i \in k : \A q \in k : q <= i)

\* the parts of a hyphenated compound
Parts(s) ==
  LET st == FoldLeft(LAMBDA a, x : IF x = "-" THEN [done |-> Append(a.done, a.cur), cur |-> ""]
                                   ELSE [a EXCEPT !.cur = @ \o x],
                     [done |-> <<>>, cur |-> ""], Chars(s))
  IN SelectSeq(Append(st.done, st.cur), LAMBDA w : w # "")

\* <laugh> and the like
IsNoise(s) == /\ Len(s) > 1
              /\ SubSeq(s, 1, 1) = "<" /\ SubSeq(s, Len(s), Len(s)) = ">"
              /\ \A i \in 1..(Len(s)-1) : SubSeq(s, i, i) # ">"

Join(seq, sep) == IF seq = <<>> THEN "" ELSE
  FoldLeft(LAMBDA a, x : a \o sep \o x, Head(seq), Tail(seq))

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* r5 is a ratio num/den in units of 1e-5, -1 is infinity, -2 is not-a-number
RatioIs(r5, num, den) == /\ r5 >= 0
                         /\ Abs(r5 * den - num * 100000) <= den
=============================================================================
