------------------------------ MODULE Gen_Mono ------------------------------
EXTENDS MC_Mono, Json, SequencesExt
CONSTANTS OutFile
Docs == UNION {[1..n -> Alphabet] : n \in 0..MaxLines}
ASSUME ndJsonSerialize(OutFile, SetToSeq({[lines |-> d] : d \in Docs}))
GInit == doc = <<>> /\ m = MStart("")
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
