-------------------------------- MODULE Runs --------------------------------
(* Runs of the program as processes that overlap, and that may be killed.     *)
(*                                                                            *)
(* runs: sequence of [inputs: set of files, jobs: sequence of [file, tok], rc]*)
(* where tok is the output of the job.  No two runs write the same file.      *)
(* State w: [fs: file -> token, "old", "absent" or "part" (some beginning of  *)
(* an output), ps: for each run [st, read, at, open]].                        *)
EXTENDS Model

Process == [st |-> "reads", read |-> {}, at |-> 1, open |-> FALSE]
WStart(runs, fs) == [fs |-> fs, ps |-> [p \in 1..Len(runs) |-> Process]]
Alive(w, p) == w.ps[p].st \in {"reads", "works"}

\* reading, in any order and as often as it takes
CanRead(w, runs, p, i) == w.ps[p].st = "reads" /\ i \in runs[p].inputs
ReadInput(w, p, i) == [w EXCEPT !.ps[p].read = @ \cup {i}]
\* nothing is written before everything is read
CanWork(w, runs, p) == w.ps[p].st = "reads" /\ w.ps[p].read = runs[p].inputs
StartWork(w, p) == [w EXCEPT !.ps[p].st = "works"]
\* the jobs, one after the other
JobAt(w, runs, p) == runs[p].jobs[w.ps[p].at]
CanBegin(w, runs, p) == w.ps[p].st = "works" /\ ~w.ps[p].open /\ w.ps[p].at <= Len(runs[p].jobs)
BeginJob(w, runs, p) == [w EXCEPT !.ps[p].open = TRUE, !.fs[JobAt(w, runs, p).file] = "part"]
CanEnd(w, p) == w.ps[p].st = "works" /\ w.ps[p].open
EndJob(w, runs, p) == [w EXCEPT !.ps[p].open = FALSE, !.ps[p].at = @ + 1, !.fs[JobAt(w, runs, p).file] = JobAt(w, runs, p).tok]
CanExit(w, runs, p) == w.ps[p].st = "works" /\ ~w.ps[p].open /\ w.ps[p].at > Len(runs[p].jobs)
Exit(w, p) == [w EXCEPT !.ps[p].st = "over"]
Kill(w, p) == [w EXCEPT !.ps[p].st = "killed"]

\* what the run does on its own, once it has read everything
CanGo(w, runs, p) == CanWork(w, runs, p) \/ CanBegin(w, runs, p) \/ CanEnd(w, p) \/ CanExit(w, runs, p)
Go(w, runs, p) == CASE CanWork(w, runs, p) -> StartWork(w, p) [] CanBegin(w, runs, p) -> BeginJob(w, runs, p)
                    [] CanEnd(w, p) -> EndJob(w, runs, p) [] OTHER -> Exit(w, p)
=============================================================================
