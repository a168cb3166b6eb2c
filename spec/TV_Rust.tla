------------------------------ MODULE TV_Rust ------------------------------
(* Trace validation of reading Rust sources.                                  *)
EXTENDS RustSrc, Json
CONSTANTS TraceFile, Prop
Recs == ndJsonDeserialize(TraceFile)
VARIABLES l, i, s
vars == <<l, i, s>>
Rec == Recs[l]
Init == l \in 1..Len(Recs) /\ i = 1 /\ s = RStart(Recs[l].file)
Read(k) == /\ i > 0 /\ i <= Len(Rec.chunks) /\ Rec.chunks[i].k = k
           /\ s' = RStep(s, Rec.chunks[i]) /\ i' = i + 1 /\ UNCHANGED l
Text   == Read("text")
Enter  == Read("item")
Leave  == Read("close")
Meet   == Read("mark")
Token  == Read("arg")
Decide == Read("end")
Break  == Read("bad")
Matches == /\ Rec.obs.ok
           /\ Range(Rec.obs.reqs) = Range(RReqs(s)) /\ Len(Rec.obs.reqs) = Len(RReqs(s))
           /\ ErrsFit(s, Rec.obs.errs)
Check == /\ i = Len(Rec.chunks) + 1
         /\ IF Matches THEN TRUE
            ELSE PrintT("@@" \o ToJson([n |-> l, exp |-> [reqs |-> RReqs(s), errs |-> s.errs, broken |-> s.broken]]))
         /\ i' = 0 /\ UNCHANGED <<l, s>>
Next == Text \/ Enter \/ Leave \/ Meet \/ Token \/ Decide \/ Break \/ Check
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Recs[n].chunks) + 2 + Total(n - 1)
Accepted == TLCGet("distinct") = Total(Len(Recs))
=============================================================================
