------------------------------ MODULE Gen_Rust ------------------------------
(* Writes all sources of MaxEvents events, with all items closed.             *)
EXTENDS MC_Rust, Json, SequencesExt
CONSTANTS OutFile
RECURSIVE Closed(_, _)
Closed(d, n) == IF n = 0 THEN d ELSE Closed(Append(d, Close), n - 1)
\* the events one behind the other, as a set of <<document, machine>> pairs
Steps(p) == {<<Append(p[1], o.cs), Run(p[2], o.cs)>> : o \in {o \in Opens : Fits(p[2].stack, o.it)}}
            \cup (IF p[2].stack # <<>> THEN {<<Append(p[1], Close), Run(p[2], Close)>>} ELSE {})
            \cup {LET cs == MarkHere(p[2].stack, m) IN <<Append(p[1], cs), Run(p[2], cs)>> : m \in Marks}
RECURSIVE Grown(_)
Grown(n) == IF n = 0 THEN {<<<<>>, RStart("f")>>} ELSE UNION {Steps(p) : p \in Grown(n - 1)}
Docs == UNION {{Flat(Closed(p[1], Len(p[2].stack))) : p \in Grown(n)} : n \in 1..MaxEvents}
ASSUME ndJsonSerialize(OutFile, SetToSeq({[chunks |-> d] : d \in Docs}))
GInit == doc = <<>> /\ s = RStart("")
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
