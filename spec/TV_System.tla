----------------------------- MODULE TV_System -----------------------------
(* Trace validation of the whole program: projects of files of every kind,    *)
(* the trace result and the exit code.                                        *)
EXTENDS System, Json
CONSTANTS TraceFile, Prop
Recs == ndJsonDeserialize(TraceFile)
VARIABLES l, y, seen
vars == <<l, y, seen>>
P == Recs[l].proj
Obs == Recs[l].obs
Init == l \in 1..Len(Recs) /\ y = YStart /\ seen = FALSE
Step(name) == YPhase(y, P) = name /\ y' = YStep(y, P) /\ UNCHANGED <<l, seen>>
DoRead  == Step("ReadFile")
DoClose == Step("CloseArtefact")
DoStart == Step("StartTrace")
DoAdd   == Step("AddArtefact")
DoUpper == Step("TraceUpper")
DoEnd   == Step("EndRelation")
DoValidate == Step("Validate")
T == y.t[1]
Matches ==
  /\ Obs.ok
  /\ SameTrace(Obs, Read_(y, P), T)
  /\ SameInput(Obs, y, P)
  /\ KnownKinds(Obs)
  /\ Recs[l].rc = (IF YVerdict(y).Trace THEN 1 ELSE 0)
Why == [trace |-> SameTrace(Obs, Read_(y, P), T), input |-> SameInput(Obs, y, P), kinds |-> KnownKinds(Obs), rc |-> Recs[l].rc]
Check == /\ YPhase(y, P) = "Done" /\ ~seen
         /\ IF y.vague \/ Matches THEN TRUE
            ELSE PrintT("@@" \o ToJson([n |-> l, known |-> "", why |-> IF Obs.ok THEN <<Why>> ELSE <<>>,
                                        exp |-> [arts |-> y.arts, rels |-> T.rels, derived |-> T.derived, errs |-> T.errs]]))
         /\ seen' = TRUE /\ UNCHANGED <<l, y>>
Done == seen /\ UNCHANGED vars
Next == DoRead \/ DoClose \/ DoStart \/ DoAdd \/ DoUpper \/ DoEnd \/ DoValidate \/ Check \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("distinct") > 0
=============================================================================
