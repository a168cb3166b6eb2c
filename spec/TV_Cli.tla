------------------------------- MODULE TV_Cli -------------------------------
(* Trace validation of command lines: the arguments, and what the program did.*)
EXTENDS Cli, Json
CONSTANTS TraceFile, Prop
Recs == ndJsonDeserialize(TraceFile)
VARIABLES l, i, c
vars == <<l, i, c>>
Rec == Recs[l]
Init == l \in 1..Len(Recs) /\ i = 1 /\ c = CStart
Take(k) == /\ i > 0 /\ i <= Len(Rec.args) /\ Kind(c, Rec.args[i]) = k
           /\ c' = CStep(c, Rec.args[i]) /\ i' = i + 1 /\ UNCHANGED l
TakeJob     == Take("Job")
TakeValue   == Take("Value")
TakeLong    == Take("Long")
TakeLetters == Take("Letters")
Separator   == Take("Separator")
Over        == Take("Over")
End == i = Len(Rec.args) + 1 /\ c' = CEnd(c) /\ i' = i + 1 /\ UNCHANGED l
Expected == Outcome(c, Rec.world)
Matches == /\ Rec.obs.rc = Expected.rc
           /\ {[p |-> f.p, tok |-> f.tok] : f \in Range(Rec.obs.files)} = Expected.files
           /\ c.end = "help" \/ Rec.obs.out = Expected.out
Check == /\ i = Len(Rec.args) + 2
         /\ IF Matches THEN TRUE ELSE PrintT("@@" \o ToJson([n |-> l, known |-> "", exp |-> [c |-> c, outcome |-> Expected]]))
         /\ i' = 0 /\ UNCHANGED <<l, c>>
Done == i = 0 /\ UNCHANGED vars
Next == TakeJob \/ TakeValue \/ TakeLong \/ TakeLetters \/ Separator \/ Over \/ End \/ Check \/ Done
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Recs[n].args) + 3 + Total(n - 1)
Accepted == TLCGet("distinct") = Total(Len(Recs))
=============================================================================
