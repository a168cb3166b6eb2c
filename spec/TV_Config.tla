----------------------------- MODULE TV_Config -----------------------------
(* Trace validation of starting up: each record is a configuration and what   *)
(* the program did with it.                                                   *)
EXTENDS Config, Json
CONSTANTS TraceFile, Prop
Recs == ndJsonDeserialize(TraceFile)
VARIABLES l, s, seen
vars == <<l, s, seen>>
Rec == Recs[l]
Init == l \in 1..Len(Recs) /\ s = CStart /\ seen = FALSE
Phase(ph) == s.phase = ph /\ s' = CStep(s, Rec.cfg) /\ UNCHANGED <<l, seen>>
DoRead == Phase("read")
DoParse == Phase("parse")
DoVersion == Phase("version")
DoIds == Phase("ids")
DoRels == Phase("relations")
DoJobs == Phase("jobs")
DoRun == Phase("run")

\* obs: [rc, message: something on standard error, changed: files that differ, written: the jobs have written]
Matches ==
  IF s.phase = "fatal"
  THEN Rec.obs.rc = "2" /\ Rec.obs.message /\ Rec.obs.changed = <<>>
  ELSE Rec.obs.rc \in {"0", "1"} /\ Rec.obs.written
Check == /\ Ended(s) /\ ~seen
         /\ IF Matches THEN TRUE ELSE PrintT("@@" \o ToJson([n |-> l, exp |-> s]))
         /\ seen' = TRUE /\ UNCHANGED <<l, s>>
Next == DoRead \/ DoParse \/ DoVersion \/ DoIds \/ DoRels \/ DoJobs \/ DoRun \/ Check
Spec == Init /\ [][Next]_vars
RECURSIVE StepsFrom(_, _)
StepsFrom(x, cfg) == IF Ended(x) THEN 2 ELSE 1 + StepsFrom(CStep(x, cfg), cfg)
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE StepsFrom(CStart, Recs[n].cfg) + Total(n - 1)
Accepted == TLCGet("distinct") = Total(Len(Recs))
=============================================================================
