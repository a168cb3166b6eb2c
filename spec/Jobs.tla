-------------------------------- MODULE Jobs --------------------------------
(* Running jobs, as src/controller.rs does.                                   *)
(*                                                                            *)
(* c: [jobs: sequence of [name, query, fmt, file, src], defaults: sequence]   *)
(* world: [bad: files that cannot be opened for writing, full: devices that   *)
(* take no bytes, silent: outputs that have none, verdict: [Trace, Parse]]    *)
(* State s: [phase, todo, fs, out, found, rc].  fs maps files to a token of   *)
(* their content: the output of a query in a format, former content, "absent" *)
(* or "any" (not specified).                                                  *)
EXTENDS Model

Token(j) == j.query \o "/" \o j.fmt
Supported(q, f) == f \in (IF q = "Trace" THEN {"GnuError", "Markdown", "Json"} ELSE {"Tags", "Markdown", "Json"})
Counts(j) == j.src # "false"

JobNames(c) == {c.jobs[i].name : i \in 1..Len(c.jobs)}
JobOf(c, n) == c.jobs[CHOOSE i \in 1..Len(c.jobs) : c.jobs[i].name = n]
Wanted(c, req) == IF req = <<>> THEN c.defaults ELSE req

SStart(fs) == [phase |-> "select", todo |-> <<>>, fs |-> fs, out |-> <<>>, found |-> FALSE, rc |-> ""]
Fatal(s) == [s EXCEPT !.phase = "end", !.todo = <<>>, !.rc = "2"]

\* nothing is executed unless all requested jobs exist
Select(s, c, req) ==
  LET names == Wanted(c, req) IN
  IF names = <<>> \/ \E i \in 1..Len(names) : names[i] \notin JobNames(c) THEN Fatal(s)
  ELSE [s EXCEPT !.phase = "run", !.todo = MapSeq(names, LAMBDA n : JobOf(c, n))]

\* what a failing run leaves in the files of the jobs that come later is not specified
Blur(s, js) == [s EXCEPT !.fs = [f \in DOMAIN @ |-> IF \E i \in 1..Len(js) : js[i].file = f THEN "any" ELSE @[f]]]

CanRun(j, world) == /\ Supported(j.query, j.fmt)
                    /\ j.file \notin world.bad
                    /\ j.file \in world.full => Token(j) \in world.silent
RunJob(s, world) ==
  LET j == Head(s.todo) IN
  [s EXCEPT !.todo = Tail(@),
            !.fs = IF j.file \in {"-"} \cup world.full THEN @ ELSE [@ EXCEPT ![j.file] = Token(j)],
            !.out = IF j.file = "-" THEN Append(@, Token(j)) ELSE @,
            !.found = @ \/ (Counts(j) /\ world.verdict[j.query])]
FailJob(s, world) ==
  LET j == Head(s.todo) IN
  Fatal(Blur(s, IF j.file \in world.bad THEN Tail(s.todo) ELSE s.todo))
Finish(s) == [s EXCEPT !.phase = "end", !.rc = IF s.found THEN "1" ELSE "0"]

-----------------------------------------------------------------------------
(* The verdict about a trace result                                           *)
InputErrors(tr) == \E i \in 1..Len(tr.arts) : tr.arts[i].errs # <<>>
Verdict(tr) ==
  [Parse |-> InputErrors(tr),
   Trace |-> \/ InputErrors(tr)
             \/ tr.errs # <<>>
             \/ \E i \in 1..Len(tr.rels) : tr.rels[i].uncovered # <<>>
             \/ \E i \in 1..Len(tr.derived) : tr.derived[i].ids # <<>>]
=============================================================================
