----------------------------- MODULE Gen_Sources ----------------------------
EXTENDS MC_Sources, Json, SequencesExt
CONSTANTS OutFile
AllFiles == {[p |-> e.p] : e \in Files}
AllDirs == {[p |-> e.p] : e \in Dirs}
Cases == {[files |-> SetToSeq(AllFiles), dirs |-> SetToSeq(AllDirs), many |-> m, paths |-> l] : m \in BOOLEAN, l \in Lists}
ASSUME ndJsonSerialize(OutFile, SetToSeq(Cases))
GInit == tree = <<>> /\ base = <<>> /\ art = <<>> /\ q = <<>>
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
