----------------------------- MODULE TraceEdit -----------------------------
(***************************************************************************)
(* Checks calls of the real edit-distance routine.  A record is a call:    *)
(*   k = "E": sequences a, b; d the distances in five ways; maps ma, mb,    *)
(*            and na, nb with the arguments the other way round; kept: the   *)
(*            arguments were left alone                                    *)
(*   k = "S": map a, cutoff cut, and the answer s                          *)
(***************************************************************************)
EXTENDS Edit, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES caseNo, phase
vars == <<caseNo, phase>>
c == Cases[caseNo]

Init == caseNo \in 1..Len(Cases) /\ phase = "call"

DistanceOK == LET d == Levenshtein(c.a, c.b) IN c.kept /\ \A i \in 1..Len(c.d) : c.d[i] = d
Verdict == CASE c.died -> "died"
             [] c.k = "S" -> IF c.s = Streak(c.a, c.cut) THEN "" ELSE "streak"
             [] OTHER -> IF ~DistanceOK THEN "distance"
                         ELSE IF ~MapsOK(c.a, c.b, c.ma, c.mb) \/ ~MapsOK(c.a, c.b, c.na, c.nb) THEN "maps"
                         ELSE IF ~EnoughOK(c.a, c.b, c.ma, c.d[1]) \/ ~EnoughOK(c.a, c.b, c.na, c.d[1]) THEN "few"
                         ELSE ""
Return == /\ phase = "call"
          /\ PrintT("VERDICT " \o ToString(c.id) \o (IF Verdict = "" THEN "" ELSE ";C13 " \o Verdict))
          /\ phase' = "returned"
          /\ UNCHANGED caseNo
Next == Return
=============================================================================
