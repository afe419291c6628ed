------------------------------ MODULE Scripts ------------------------------
(***************************************************************************)
(* Every short alignment: a script of matches, substitutions, deletions    *)
(* and insertions over an NLP reference whose words carry speakers, stops, *)
(* tags and labels.  All words differ, so that the script is what the      *)
(* aligner has to find (an insertion beside a deletion aside).             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,
          NSpeakers, NStops, NTagLists,  \* how many different ones there are
          Spans                          \* how many tagged spans there may be

VARIABLES phase, script, seen, spans
vars == <<phase, script, seen, spans>>
Init == phase = "script" /\ script = <<>> /\ seen = 0 /\ spans = 0

\* the label of the last reference word, 0 without
LastLabel == LET r == {i \in 1..Len(script) : script[i].op # "ins"}
             IN IF r = {} THEN 0 ELSE script[CHOOSE i \in r : \A q \in r : q <= i].l
Step(op) ==
  /\ phase = "script" /\ Len(script) < MaxLen
  /\ \E s \in 1..(IF seen < NSpeakers THEN seen + 1 ELSE NSpeakers), p \in 1..NStops, g \in 1..NTagLists,
        l \in {0, LastLabel} \cup (IF spans < Spans THEN {spans + 1} ELSE {}) :
       /\ script' = Append(script, [op |-> op, s |-> s, p |-> p, g |-> g, l |-> l])
       /\ seen' = IF s > seen THEN s ELSE seen
       /\ spans' = IF l > spans THEN l ELSE spans
  /\ UNCHANGED phase
Match == Step("cor")
Substitute == Step("sub")
Delete == Step("del")
Insert == /\ phase = "script" /\ Len(script) < MaxLen
          /\ script' = Append(script, [op |-> "ins", s |-> 0, p |-> 0, g |-> 0, l |-> 0])
          /\ UNCHANGED <<phase, seen, spans>>
Finish == /\ phase = "script"
          /\ PrintT("INPUT " \o ToJson(script))
          /\ phase' = "done" /\ UNCHANGED <<script, seen, spans>>
Next == Match \/ Substitute \/ Delete \/ Insert \/ Finish
=============================================================================
