------------------------------- MODULE TV_Runs -------------------------------
(* Trace validation of runs whose inputs and outputs are pipes, so that they  *)
(* wait where the schedule wants them to.  A record: the runs, the files      *)
(* before, and what was observed: [e, p, x, fs] where fs is <<>> or the files *)
(* at that moment.                                                            *)
(*   asks    p waits for the input x        gets    p was given the input x   *)
(*   blocks  p is amid its output to x      drains  x has given all: tok      *)
(*   ends    p has ended with exit code x   killed  p was killed while waiting*)
(*   crashed p was killed at some moment                                      *)
EXTENDS Runs, Json
CONSTANTS TraceFile, Prop
Recs == ndJsonDeserialize(TraceFile)
VARIABLES l, k, w, ok
vars == <<l, k, w, ok>>
Rec == Recs[l]
R == [p \in 1..Len(Rec.runs) |-> [inputs |-> Range(Rec.runs[p].inputs), jobs |-> Rec.runs[p].jobs, rc |-> Rec.runs[p].rc]]
FsOf(pairs) == [f \in {pairs[i][1] : i \in 1..Len(pairs)} |-> pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = f][2]]
Ev == Rec.ev[k]
P == Ev.p

Same(v, o, f) == \/ o = v
                 \/ v = "part" /\ \E p \in DOMAIN R : \E j \in Range(R[p].jobs) : j.file = f /\ j.tok = o
FilesOk(v, fs) == fs = <<>> \/ LET o == FsOf(fs) IN
                  \A f \in DOMAIN v.fs \cup DOMAIN o : f \in Range(Rec.pipes) \/ (f \in DOMAIN v.fs /\ f \in DOMAIN o /\ Same(v.fs[f], o[f], f))

\* where the run stands when the event is seen
Reached == CASE Ev.e = "blocks" -> CanEnd(w, P) /\ JobAt(w, R, P).file = Ev.x
             [] Ev.e = "ends" -> w.ps[P].st = "over"
             [] OTHER -> TRUE
Silent == /\ k > 0 /\ k <= Len(Rec.ev) /\ ok /\ ~Reached /\ Alive(w, P) /\ CanGo(w, R, P)
          /\ w' = Go(w, R, P) /\ UNCHANGED <<l, k, ok>>
RECURSIVE Ahead(_, _)
Ahead(v, p) == IF Alive(v, p) /\ CanGo(v, R, p) THEN <<v>> \o Ahead(Go(v, R, p), p) ELSE <<v>>
Fits == LET a == Ahead(w, P) IN {i \in 1..Len(a) : FilesOk(a[i], Ev.fs)}
Right == CASE Ev.e = "asks" -> w.ps[P].st = "reads" /\ Ev.x \in R[P].inputs /\ FilesOk(w, Ev.fs)
           [] Ev.e = "gets" -> CanRead(w, R, P, Ev.x)
           [] Ev.e = "blocks" -> FilesOk(w, Ev.fs)
           [] Ev.e = "drains" -> CanEnd(w, P) /\ JobAt(w, R, P).file = Ev.x /\ JobAt(w, R, P).tok = Ev.tok
           [] Ev.e = "ends" -> Ev.x = R[P].rc /\ FilesOk(w, Ev.fs)
           [] Ev.e = "killed" -> Alive(w, P) /\ FilesOk(w, Ev.fs)
           [] Ev.e = "crashed" -> Alive(w, P) /\ Fits # {}
           [] OTHER -> FALSE
Effect == CASE Ev.e = "gets" -> ReadInput(w, P, Ev.x)
            [] Ev.e = "drains" -> EndJob(w, R, P)
            [] Ev.e = "killed" -> Kill(w, P)
            [] Ev.e = "crashed" -> Kill(Ahead(w, P)[CHOOSE i \in Fits : TRUE], P)
            [] OTHER -> w
Event == /\ k > 0 /\ k <= Len(Rec.ev) /\ ok /\ Reached /\ Right
         /\ w' = Effect /\ k' = k + 1 /\ UNCHANGED <<l, ok>>
Odd == /\ k > 0 /\ k <= Len(Rec.ev) /\ ok
       /\ IF Reached THEN ~Right ELSE ~(Alive(w, P) /\ CanGo(w, R, P))
       /\ PrintT("@@" \o ToJson([n |-> l, known |-> "", exp |-> [step |-> k, event |-> Ev.e, fs |-> w.fs]]))
       /\ ok' = FALSE /\ UNCHANGED <<l, k, w>>
Check == /\ k = Len(Rec.ev) + 1 /\ ok
         /\ IF Rec.ev # <<>> /\ \A p \in DOMAIN R : ~Alive(w, p) THEN TRUE
            ELSE PrintT("@@" \o ToJson([n |-> l, known |-> "", exp |-> [step |-> k, event |-> "the end", fs |-> w.fs]]))
         /\ k' = 0 /\ UNCHANGED <<l, w, ok>>
Done == (k = 0 \/ ~ok) /\ UNCHANGED vars
Init == l \in 1..Len(Recs) /\ k = 1 /\ ok = TRUE
        /\ w = WStart(Recs[l].runs, FsOf(Recs[l].before))
Next == Silent \/ Event \/ Odd \/ Check \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("distinct") > 0
=============================================================================
