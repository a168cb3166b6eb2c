------------------------------ MODULE TV_Mono ------------------------------
(* Trace validation of reading mono requirement files.                        *)
EXTENDS Mono, Json
CONSTANTS TraceFile, Prop
Recs == ndJsonDeserialize(TraceFile)
VARIABLES l, i, m
vars == <<l, i, m>>
Rec == Recs[l]
Last(r) == IF r.fail >= 0 THEN r.fail ELSE Len(r.lines)
Init == l \in 1..Len(Recs) /\ i = 1 /\ m = MStart(Recs[l].file)
Read(k) == /\ ~m.done /\ i <= Last(Rec) /\ MKind(m, Rec.lines[i]) = k
           /\ m' = MStep(m, Rec.lines[i]) /\ i' = i + 1 /\ UNCHANGED l
ReadTitle == Read("Title")
ReadArrow == Read("Arrow")
ReadOther == Read("Other")
End   == ~m.done /\ i = Last(Rec) + 1 /\ Rec.fail < 0 /\ m' = MEnd(m) /\ i' = i + 1 /\ UNCHANGED l
Break == ~m.done /\ i = Last(Rec) + 1 /\ Rec.fail >= 0 /\ m' = MBroken(m) /\ i' = i + 1 /\ UNCHANGED l
Expected == MReq(m, Rec.name)
Matches == /\ Rec.obs.ok
           /\ Rec.obs.reqs = <<Expected>>
           /\ Rec.obs.errs = m.errs
Check == /\ m.done /\ i > 0
         /\ IF Matches THEN TRUE ELSE PrintT("@@" \o ToJson([n |-> l, exp |-> [req |-> Expected, errs |-> m.errs]]))
         /\ i' = 0 /\ UNCHANGED <<l, m>>
Next == ReadTitle \/ ReadArrow \/ ReadOther \/ End \/ Break \/ Check
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Last(Recs[n]) + 3 + Total(n - 1)
Accepted == TLCGet("distinct") = Total(Len(Recs))
=============================================================================
