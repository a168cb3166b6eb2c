----------------------------- MODULE TV_Sources -----------------------------
(* Trace validation of finding and reading the files of artefacts.  A record  *)
(* is a directory tree, a configuration and what the program made of it; each *)
(* artefact is a behaviour of its own.                                        *)
EXTENDS Sources, Json
CONSTANTS TraceFile, Prop
Recs == ndJsonDeserialize(TraceFile)
VARIABLES l, a, q, checked
vars == <<l, a, q, checked>>
Rec == Recs[l]
Art == Rec.arts[a]
Init == /\ l \in 1..Len(Recs) /\ a \in 1..Len(Recs[l].arts)
        /\ q = QStart(Recs[l].arts[a]) /\ checked = FALSE
Go == ~q.done /\ ~Unusable(Art)
Same_ == UNCHANGED <<l, a, checked>>
DoRefuse == ~q.done /\ Unusable(Art) /\ q' = Refuse(q) /\ Same_
DoExpand == Go /\ q.todo # <<>> /\ q' = Expand(q, Rec.tree, Rec.base, Art) /\ Same_
DoRead   == Go /\ q.todo = <<>> /\ q.queue # {} /\ q' = Read(q, CHOOSE x \in q.queue : TRUE) /\ Same_
DoFinish == Go /\ q.todo = <<>> /\ q.queue = {} /\ q' = Finish(q) /\ Same_
Obs == Rec.obs.arts[a]
Matches == /\ Rec.obs.ok
           /\ ContentOk(q, Rec.tree, Rec.base, Art, Rec.cwd, Obs)
           /\ ReportedOk(q, Rec.tree, Rec.cwd, Obs)
           /\ Prop # "C22" \/ FilesOk(q, Rec.tree, Rec.cwd, Obs)
Check == /\ q.done /\ ~checked
         /\ IF Matches THEN TRUE
            ELSE PrintT("@@" \o ToJson([n |-> l, exp |-> [art |-> Art.id, files |-> q.files, got |-> {e.p : e \in q.got},
                                                          must |-> q.must, may |-> q.may, config |-> q.config,
                                                          rc |-> Rec.obs.rc]]))
         /\ checked' = TRUE /\ UNCHANGED <<l, a, q>>
\* a behaviour that stops before it was checked is a deadlock
Done == checked /\ UNCHANGED vars
Next == DoRefuse \/ DoExpand \/ DoRead \/ DoFinish \/ Check \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("distinct") > 0
=============================================================================
