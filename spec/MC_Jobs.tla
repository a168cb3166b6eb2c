------------------------------ MODULE MC_Jobs ------------------------------
(* All command lines of up to MaxJobs names over a set of jobs that share     *)
(* files, write to standard output, cannot be written or are not supported.   *)
EXTENDS Jobs
CONSTANTS MaxJobs
VARIABLES req, v, s
vars == <<req, v, s>>

J(n, q, f, file, src) == [name |-> n, query |-> q, fmt |-> f, file |-> file, src |-> src]
C == [jobs |-> << J("t", "Trace", "Json", "f1", "unset"), J("p", "Parse", "Json", "f1", "true"),
                  J("q", "Trace", "Markdown", "f2", "false"), J("o", "Parse", "Tags", "-", "false"),
                  J("b", "Trace", "GnuError", "bad", "unset"), J("x", "Trace", "Tags", "f2", "unset"),
                  J("e", "Parse", "Markdown", "full", "unset"), J("d", "Parse", "Json", "full", "unset") >>,
      defaults |-> <<"q", "p">>]
Files == {"f1", "f2", "bad"}
Fs0 == [f \in Files |-> IF f = "f2" THEN "old" ELSE "absent"]
World == [bad |-> {"bad"}, full |-> {"full"}, silent |-> {"Parse/Markdown"}, verdict |-> v]

Names == {"t", "p", "q", "o", "b", "x", "e", "d", "nope"}
Init == /\ req \in UNION {[1..n -> Names] : n \in 0..MaxJobs}
        /\ v \in {[Trace |-> FALSE, Parse |-> FALSE], [Trace |-> TRUE, Parse |-> FALSE], [Trace |-> TRUE, Parse |-> TRUE]}
        /\ s = SStart(Fs0)
DoSelect == s.phase = "select" /\ s' = Select(s, C, req) /\ UNCHANGED <<req, v>>
DoRun    == s.phase = "run" /\ s.todo # <<>> /\ CanRun(Head(s.todo), World) /\ s' = RunJob(s, World) /\ UNCHANGED <<req, v>>
DoFail   == s.phase = "run" /\ s.todo # <<>> /\ ~CanRun(Head(s.todo), World) /\ s' = FailJob(s, World) /\ UNCHANGED <<req, v>>
DoFinish == s.phase = "run" /\ s.todo = <<>> /\ s' = Finish(s) /\ UNCHANGED <<req, v>>
Next == DoSelect \/ DoRun \/ DoFail \/ DoFinish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
W == Wanted(C, req)
End == s.phase = "end"
Unknown == \E i \in 1..Len(W) : W[i] \notin JobNames(C)
Broken(n) == n \in {"b", "x", "d"}
Bad == W = <<>> \/ Unknown \/ \E i \in 1..Len(W) : Broken(W[i])

\* the exit code only depends on the set of the requested jobs
C07_Rc == End => s.rc = IF Bad THEN "2"
                        ELSE IF \E n \in Range(W) : Counts(JobOf(C, n)) /\ v[JobOf(C, n).query] THEN "1" ELSE "0"
C08_Unknown == (End /\ Unknown) => s.fs = Fs0 /\ s.out = <<>>
\* each file holds the output of the last job that has it; others are as before
LastOf(f) == {i \in 1..Len(W) : JobOf(C, W[i]).file = f /\ \A j \in (i+1)..Len(W) : JobOf(C, W[j]).file # f}
C08_Files == (End /\ ~Bad) => \A f \in Files : s.fs[f] = IF LastOf(f) = {} THEN Fs0[f] ELSE Token(JobOf(C, W[CHOOSE i \in LastOf(f) : TRUE]))
C08_Out == (End /\ ~Bad) => Len(s.out) = Cardinality({i \in 1..Len(W) : JobOf(C, W[i]).file = "-"})
\* what was written stays, unless a later job of the command line has the same file
C08_Keeps == [][ \A f \in Files : (s.fs[f] # Fs0[f] /\ s.phase = "run") =>
                   (s'.fs[f] = s.fs[f] \/ \E i \in 1..Len(s.todo) : s.todo[i].file = f) ]_vars
Ends == <>(s.phase = "end")
=============================================================================
