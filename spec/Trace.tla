------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks runs of the real program against the specification.  Every case  *)
(* of the file is a behaviour of its own: its alignment is replayed row by *)
(* row through the actions of Align, its rows are given their metadata by  *)
(* Stitch, and what the program reported is compared with what Metrics     *)
(* counts.  A case is accepted if the behaviour ends with broken = {}.        *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo,    \* which case
          phase,    \* "load", "rows", "stitch", "report", "done"
          rowNo,     \* rows replayed
          confs,     \* configurations
          lastClass,  \* the class of the last row
          taken,     \* hypothesis words taken
          broken,   \* the properties found broken
          graph,     \* the reference's graph
          lowHyp,    \* the hypothesis' words as they are compared
          stitched     \* the stitches
vars == <<caseNo, phase, rowNo, confs, lastClass, taken, broken, graph, lowHyp, stitched>>
\* graph, lowHyp and stitched are functions of the rest
view == <<caseNo, phase, rowNo, confs, lastClass, taken, broken>>

c == Cases[caseNo]
Wants(p) == \E k \in 1..Len(c.want) : c.want[k] = p

Init == /\ caseNo \in 1..Len(Cases)
        /\ phase = "load" /\ rowNo = 0 /\ confs = StartConfigs /\ lastClass = "" /\ taken = 0
        /\ broken = {} /\ graph = <<>> /\ lowHyp = <<>> /\ stitched = <<>>

Complete == c.st = "exit 0" /\ c.full

\* no report, nothing to judge: whatever was promised of it does not hold
NoReport == /\ phase = "load" /\ ~Complete
            /\ broken' = {c.want[k] : k \in 1..Len(c.want)}
            /\ phase' = "done"
            /\ UNCHANGED <<caseNo, rowNo, confs, lastClass, taken, graph, lowHyp, stitched>>

Load == /\ phase = "load" /\ Complete
        /\ graph' = Graph(c)
        /\ lowHyp' = LowerAll(c, HypWords(c))
        /\ phase' = "rows"
        /\ UNCHANGED <<caseNo, rowNo, confs, lastClass, taken, broken, stitched>>

\* ---- one row of the alignment
RowIs(kind(_)) == /\ phase = "rows" /\ rowNo < Len(c.rows) /\ kind(c.rows[rowNo + 1])
TakeRow == LET row == c.rows[rowNo + 1] IN
  /\ rowNo' = rowNo + 1
  /\ confs' = RefStep(graph, confs, lastClass, row)
  /\ lastClass' = row.c
  /\ taken' = HypStep(lowHyp, taken, row)
  /\ UNCHANGED <<caseNo, phase, broken, graph, lowHyp, stitched>>
Match == RowIs(IsCor) /\ TakeRow
Substitute == RowIs(IsSub) /\ TakeRow
Insert == RowIs(IsIns) /\ TakeRow
Delete == RowIs(IsDel) /\ TakeRow

EndOfRows ==
  /\ phase = "rows" /\ rowNo = Len(c.rows)
  /\ phase' = "stitch"
  /\ broken' = broken \cup (IF taken # Len(lowHyp) THEN {"C01"} ELSE {})
                \cup (IF ~RefDone(graph, confs) THEN {"C02"} ELSE {})
  /\ UNCHANGED <<caseNo, rowNo, confs, lastClass, taken, graph, lowHyp, stitched>>

\* ---- the metadata of the reference's rows
NlpRef == c.o.rf = "nlp"
Stitch == /\ phase = "stitch"
          /\ stitched' = IF NlpRef THEN Stitches(c.rows, NlpRows(c)) ELSE <<>>
          /\ phase' = "report"
          /\ UNCHANGED <<caseNo, rowNo, confs, lastClass, taken, broken, graph, lowHyp>>

\* ---- the report
Broken ==
  LET t == Tally(c.rows)
      W(p, ok) == IF Wants(p) /\ ~ok THEN {p} ELSE {}
      dist == IF \E p \in {"C04", "C05", "C06", "C07"} : Wants(p) THEN DistanceVerdict(c, graph, lowHyp) ELSE "ok"
      DV(p) == IF Wants(p) /\ dist # "ok" THEN {IF dist = "bad" THEN p ELSE "known " \o dist \o " " \o p} ELSE {}
  IN W("C03", MarksOK(c) /\ RowShapesOK(c) /\ TotalsOK(c, t) /\ StdoutOK(c, t))
     \cup DV("C04") \cup DV("C05") \cup DV("C06") \cup DV("C07")
     \cup W("C08", ClassOK(c))
     \cup W("C15", GramsOK(c))
     \cup W("C16", GroupsOK(c))
     \cup W("C21", SectionsOK(c, stitched))
     \cup IF ~NlpRef THEN {} ELSE
          W("C09", SpeakerOK(c, stitched) /\ SwitchOK(c, stitched))
          \cup W("C10", SentenceOK(c, stitched) /\ TagOK(c, stitched) /\ TagColumnOK(c, stitched))
          \cup LET v == IF Wants("C11") THEN LinesVerdict(c, stitched) ELSE "ok"
               IN (IF v = "ok" THEN {} ELSE IF v = "known" THEN {"known span C11"} ELSE {"C11"})
          \cup W("C12", TimesOK(c) /\ Monotone(c))
          \cup W("C17", CaseOK(c, stitched))
Report == /\ phase = "report"
          /\ broken' = (broken \cup Broken)
          /\ phase' = "done"
          /\ UNCHANGED <<caseNo, rowNo, confs, lastClass, taken, graph, lowHyp, stitched>>

\* ---- the verdict, once per case
Wanted == {p \in broken : Wants(p) \/ p \notin {"C01", "C02"}}
Verdict == /\ phase = "done"
           /\ PrintT("VERDICT " \o ToString(c.id) \o FoldSet(LAMBDA p, a : a \o ";" \o p, "", Wanted))
           /\ phase' = "judged"
           /\ UNCHANGED <<caseNo, rowNo, confs, lastClass, taken, broken, graph, lowHyp, stitched>>

Next == NoReport \/ Load \/ Match \/ Substitute \/ Insert \/ Delete \/ EndOfRows
        \/ Stitch \/ Report \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
