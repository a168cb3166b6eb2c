------------------------------ MODULE Gen_Runs ------------------------------
(* All schedules of two runs: who goes on to where it waits next (p), or is   *)
(* killed there (-p).  Run p waits Stops[p] times before it ends.             *)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt, FiniteSets
CONSTANTS Stops1, Stops2, OutFile
VARIABLES x
\* the schedules in which run p has still n[p] steps to do (0: over)
RECURSIVE All(_, _)
All(a, b) ==
  IF a = 0 /\ b = 0 THEN {<<>>}
  ELSE UNION { IF a > 0 THEN {<<1>> \o s : s \in All(a - 1, b)} ELSE {},
               IF b > 0 THEN {<<2>> \o s : s \in All(a, b - 1)} ELSE {},
               IF a > 0 /\ a < Stops1 THEN {<<-1>> \o s : s \in All(0, b)} ELSE {},
               IF b > 0 /\ b < Stops2 THEN {<<-2>> \o s : s \in All(a, 0)} ELSE {} }
ASSUME ndJsonSerialize(OutFile, SetToSeq({[s |-> s] : s \in All(Stops1, Stops2)}))
Init == x = 0
Spec == Init /\ [][FALSE]_x
=============================================================================
