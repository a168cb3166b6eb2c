------------------------------ MODULE History ------------------------------
(* Runs of the program one after the other over the same input files.         *)
(* A run is [rels: which order of the relations, jobs: sequence of            *)
(*   [job, out: digest of its output file], rc, finds: its findings,          *)
(*   before, after: digest of all inputs].                                    *)
(* The machine h remembers for every order of relations and every job the     *)
(* first output, for every set of jobs the first exit code, and the findings. *)
EXTENDS Model

HStart(inputs) == [outs |-> <<>>, rcs |-> <<>>, finds |-> <<>>, inputs |-> inputs, bad |-> <<>>]

Known(list, key) == \E i \in 1..Len(list) : list[i].key = key
Val(list, key) == list[CHOOSE i \in 1..Len(list) : list[i].key = key].val
Learn(list, key, val) == IF Known(list, key) THEN list ELSE Append(list, [key |-> key, val |-> val])
Differs(list, key, val) == Known(list, key) /\ Val(list, key) # val

\* one job of a run has ended
JobDone(h, run, j) ==
  LET key == <<run.rels, j.job>> IN
  [h EXCEPT !.outs = Learn(@, key, j.out),
            !.bad = IF Differs(h.outs, key, j.out) THEN Append(@, "output of " \o j.job) ELSE @]
\* the run has ended
RunDone(h, run) ==
  LET key == {run.jobs[i].job : i \in 1..Len(run.jobs)} IN
  [h EXCEPT !.rcs = Learn(@, key, run.rc),
            !.finds = IF run.finds = <<>> THEN @ ELSE Learn(@, 0, Range(run.finds[1])),
            !.bad = @ \o (IF Differs(h.rcs, key, run.rc) THEN <<"exit code">> ELSE <<>>)
                      \o (IF run.finds # <<>> /\ Differs(h.finds, 0, Range(run.finds[1])) THEN <<"findings">> ELSE <<>>)
                      \o (IF run.before # h.inputs \/ run.after # h.inputs THEN <<"inputs">> ELSE <<>>)]
=============================================================================
