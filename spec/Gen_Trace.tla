----------------------------- MODULE Gen_Trace -----------------------------
(* Writes all projects of MC_Trace for replay into the program.               *)
EXTENDS MC_Trace, Json, SequencesExt
CONSTANTS OutFile
ASSUME ndJsonSerialize(OutFile, SetToSeq(Projects))
GInit == p = "" /\ t = ""
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
