----------------------------- MODULE TV_History -----------------------------
(* Trace validation of histories of runs.                                     *)
EXTENDS History, Json
CONSTANTS TraceFile, Prop
Recs == ndJsonDeserialize(TraceFile)
VARIABLES l, k, j, h
vars == <<l, k, j, h>>
Rec == Recs[l]
Init == l \in 1..Len(Recs) /\ k = 1 /\ j = 1 /\ h = HStart(Recs[l].inputs)
Run == Rec.runs[k]
OneJob == /\ k > 0 /\ k <= Len(Rec.runs) /\ j <= Len(Run.jobs)
          /\ h' = JobDone(h, Run, Run.jobs[j]) /\ j' = j + 1 /\ UNCHANGED <<l, k>>
OneRun == /\ k > 0 /\ k <= Len(Rec.runs) /\ j = Len(Run.jobs) + 1
          /\ h' = RunDone(h, Run) /\ k' = k + 1 /\ j' = 1 /\ UNCHANGED l
Check == /\ k = Len(Rec.runs) + 1
         /\ IF h.bad = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([n |-> l, exp |-> h.bad]))
         /\ k' = 0 /\ UNCHANGED <<l, j, h>>
Done == k = 0 /\ UNCHANGED vars
Next == OneJob \/ OneRun \/ Check \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("distinct") > 0
=============================================================================
