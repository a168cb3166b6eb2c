------------------------------- MODULE Gen_Md -------------------------------
(* Writes all documents of 1 + MaxLines lines over the line forms of MC_Md    *)
(* that start with a requirement heading, for replay into the program.        *)
EXTENDS MC_Md, Json, SequencesExt
CONSTANTS OutFile
Docs == UNION {{<<"# AA: Ta\n">> \o d : d \in [1..n -> Alphabet]} : n \in 0..MaxLines}
ASSUME ndJsonSerialize(OutFile, SetToSeq({[lines |-> d] : d \in Docs}))
GInit == m = MdStart("") /\ doc = <<>>
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
