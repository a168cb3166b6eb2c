----------------------------- MODULE Gen_Config -----------------------------
(* Writes the configurations of MC_Config that have at most one defect of     *)
(* the file itself.                                                           *)
EXTENDS MC_Config, Json, SequencesExt
CONSTANTS OutFile
Few(x) == Cardinality({i \in 1..5 : <<x.file # "ok", x.toml # "ok", x.missing # "none", x.value # "none",
                                      x.version \notin {"none", "0"}>>[i]}) <= 1
ASSUME ndJsonSerialize(OutFile, SetToSeq({x \in Configs : Few(x)}))
GInit == c = "" /\ s = ""
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
