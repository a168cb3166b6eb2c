------------------------------ MODULE TV_Jobs ------------------------------
(* Trace validation of runs.  A record is a configuration of jobs, a command  *)
(* line, the files before and after, standard output and the exit code.       *)
EXTENDS Jobs, Json
CONSTANTS TraceFile, Prop
Recs == ndJsonDeserialize(TraceFile)
VARIABLES l, s, seen
vars == <<l, s, seen>>
Rec == Recs[l]
FsOf(pairs) == [f \in {pairs[i][1] : i \in 1..Len(pairs)} |-> pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = f][2]]
WorldOf(r) == [bad |-> Range(r.bad), full |-> Range(r.full), silent |-> Range(r.silent), verdict |-> Verdict(r.tr)]
World == WorldOf(Rec)

Init == l \in 1..Len(Recs) /\ s = SStart(FsOf(Recs[l].before)) /\ seen = FALSE
Keep == UNCHANGED <<l, seen>>
DoSelect == s.phase = "select" /\ s' = Select(s, Rec.cfg, Rec.req) /\ Keep
DoRun    == s.phase = "run" /\ s.todo # <<>> /\ CanRun(Head(s.todo), World) /\ s' = RunJob(s, World) /\ Keep
DoFail   == s.phase = "run" /\ s.todo # <<>> /\ ~CanRun(Head(s.todo), World) /\ s' = FailJob(s, World) /\ Keep
DoFinish == s.phase = "run" /\ s.todo = <<>> /\ s' = Finish(s) /\ Keep

After == FsOf(Rec.obs.fs)
\* the output for the finished jobs; of a fatal run the rest is not specified
Heard == SelectSeq(s.out, LAMBDA o : o \notin Range(Rec.silent))    \* an empty output leaves no trace
OutOk == IF s.rc = "2" THEN \E r \in 0..Len(Rec.obs.out) : SubSeq(Rec.obs.out, 1, r) = Heard
         ELSE Rec.obs.out = Heard
FilesOk == /\ \A f \in DOMAIN After : f \in DOMAIN s.fs \/ f \in Range(Rec.bad)
           /\ \A f \in DOMAIN s.fs : s.fs[f] = "any" \/ (f \in DOMAIN After /\ After[f] = s.fs[f])
                                     \/ (f \notin DOMAIN After /\ s.fs[f] = "absent")
Matches ==
  /\ Rec.tr.ok
  /\ CASE Prop = "C07" -> Rec.obs.rc = s.rc
       [] Prop = "C08" -> /\ FilesOk /\ OutOk
                          /\ (Rec.obs.rc = "2") = (s.rc = "2")
                          /\ Rec.obs.rc \in {"0", "1", "2"}
       [] OTHER -> FALSE
Check == /\ s.phase = "end" /\ ~seen
         /\ IF Matches THEN TRUE
            ELSE PrintT("@@" \o ToJson([n |-> l, exp |-> [fs |-> s.fs, out |-> s.out, rc |-> s.rc, verdict |-> Verdict(Rec.tr)]]))
         /\ seen' = TRUE /\ UNCHANGED <<l, s>>
Next == DoSelect \/ DoRun \/ DoFail \/ DoFinish \/ Check
Spec == Init /\ [][Next]_vars
\* every record was replayed to its end
StepsOf(r) ==
  LET names == Wanted(r.cfg, r.req)
      fails == {i \in 1..Len(names) : ~CanRun(JobOf(r.cfg, names[i]), WorldOf(r))}
  IN IF names = <<>> \/ \E i \in 1..Len(names) : names[i] \notin JobNames(r.cfg) THEN 3
     ELSE IF fails = {} THEN Len(names) + 4
     ELSE (CHOOSE i \in fails : \A j \in fails : i <= j) + 3
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE StepsOf(Recs[n]) + Total(n - 1)
Accepted == TLCGet("distinct") = Total(Len(Recs))
=============================================================================
