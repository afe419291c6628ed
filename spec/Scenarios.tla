----------------------------- MODULE Scenarios -----------------------------
(***************************************************************************)
(* Every small input, written down step by step: first the reference, word *)
(* by word, some of its words in a tagged span; then the rules of a        *)
(* synonym file; then the normalization of the span; then the hypothesis.  *)
(* Each finished input is printed, run through the real program, and the   *)
(* run replayed through Trace.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NWords,              \* how many different words
          Alike,               \* words are interchangeable: take them in order
          MaxRef, MaxHyp,
          Spans,               \* may words be tagged? all tagged words of an input are neighbours
          MaxRules, MaxLeft, MaxRight,
          MaxCand              \* words of the normalization; 0: there is none

VARIABLES phase, ref, rules, cand, hyp, seen
vars == <<phase, ref, rules, cand, hyp, seen>>

Init == phase = "ref" /\ ref = <<>> /\ rules = <<>> /\ cand = <<>> /\ hyp = <<>> /\ seen = 0

Pick == 1..(IF Alike /\ seen < NWords THEN seen + 1 ELSE NWords)
See(w) == seen' = IF w > seen THEN w ELSE seen

Tagged == \E i \in 1..Len(ref) : ref[i].l = 1
RefWord == /\ phase = "ref" /\ Len(ref) < MaxRef
           /\ \E w \in Pick, l \in (IF Spans THEN {0, 1} ELSE {0}) :
                /\ l = 1 /\ Tagged => ref[Len(ref)].l = 1
                /\ ref' = Append(ref, [t |-> w, l |-> l]) /\ See(w)
           /\ UNCHANGED <<phase, rules, cand, hyp>>
RefEnd == phase = "ref" /\ (Spans => Tagged) /\ phase' = "rules" /\ UNCHANGED <<ref, rules, cand, hyp, seen>>

\* a rule is written word by word, its left side first
OpenRule == /\ phase = "rules" /\ Len(rules) < MaxRules
            /\ \E w \in Pick : rules' = Append(rules, [l |-> <<w>>, r |-> <<>>]) /\ See(w)
            /\ phase' = "left" /\ UNCHANGED <<ref, cand, hyp>>
LeftWord == /\ phase = "left" /\ Len(rules[Len(rules)].l) < MaxLeft
            /\ \E w \in Pick : rules' = [rules EXCEPT ![Len(rules)].l = Append(@, w)] /\ See(w)
            /\ UNCHANGED <<phase, ref, cand, hyp>>
RightWord == /\ phase \in {"left", "right"} /\ Len(rules[Len(rules)].r) < MaxRight
             /\ \E w \in Pick : rules' = [rules EXCEPT ![Len(rules)].r = Append(@, w)] /\ See(w)
             /\ phase' = "right" /\ UNCHANGED <<ref, cand, hyp>>
CloseRule == phase = "right" /\ phase' = "rules" /\ UNCHANGED <<ref, rules, cand, hyp, seen>>
RulesEnd == phase = "rules" /\ Len(rules) = MaxRules /\ phase' = "cand" /\ UNCHANGED <<ref, rules, cand, hyp, seen>>

CandWord == /\ phase = "cand" /\ Len(cand) < MaxCand
            /\ \E w \in Pick : cand' = Append(cand, w) /\ See(w)
            /\ UNCHANGED <<phase, ref, rules, hyp>>
CandEnd == phase = "cand" /\ (MaxCand > 0 => cand # <<>>) /\ phase' = "hyp" /\ UNCHANGED <<ref, rules, cand, hyp, seen>>

HypWord == /\ phase = "hyp" /\ Len(hyp) < MaxHyp
           /\ \E w \in Pick : hyp' = Append(hyp, w) /\ See(w)
           /\ UNCHANGED <<phase, ref, rules, cand>>
Finish == /\ phase = "hyp"
          /\ PrintT("INPUT " \o ToJson([ref |-> ref, rules |-> rules, cand |-> cand, hyp |-> hyp]))
          /\ phase' = "done" /\ UNCHANGED <<ref, rules, cand, hyp, seen>>

Next == RefWord \/ RefEnd \/ OpenRule \/ LeftWord \/ RightWord \/ CloseRule \/ RulesEnd \/ CandWord \/ CandEnd
        \/ HypWord \/ Finish
=============================================================================
