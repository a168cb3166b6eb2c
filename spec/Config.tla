------------------------------- MODULE Config -------------------------------
(* From the configuration file to the point where jobs start (src/main.rs).   *)
(*                                                                            *)
(* c: [file \in {"ok","missing","dir","denied"}, toml \in {"ok","syntax",     *)
(*     "utf8","twice","type"}, missing: a mandatory field or "none",          *)
(*     value: field with a value that is not allowed, or "none",              *)
(*     version, arts: ids, rels: [upper, lower], jobs: names, defaults, req]  *)
(* State s: [phase, written].                                                 *)
EXTENDS Model

CStart == [phase |-> "read", written |-> FALSE]
Go(s, ph) == [s EXCEPT !.phase = ph]
IdSet(c) == {c.arts[i] : i \in 1..Len(c.arts)}
Wanted(c) == IF c.req = <<>> THEN c.defaults ELSE c.req

ReadFile(s, c)     == Go(s, IF c.file = "ok" THEN "parse" ELSE "fatal")
ParseFile(s, c)    == Go(s, IF c.toml = "ok" /\ c.missing = "none" /\ c.value = "none" THEN "version" ELSE "fatal")
CheckVersion(s, c) == Go(s, IF c.version \in {"none", "0"} THEN "ids" ELSE "fatal")
CheckIds(s, c)     == Go(s, IF Cardinality(IdSet(c)) = Len(c.arts) THEN "relations" ELSE "fatal")
CheckRels(s, c)    ==
  Go(s, IF \A i \in 1..Len(c.rels) : c.rels[i].upper \in IdSet(c) /\ Range(c.rels[i].lower) \subseteq IdSet(c)
        THEN "jobs" ELSE "fatal")
SelectJobs(s, c)   == Go(s, IF Wanted(c) # <<>> /\ Range(Wanted(c)) \subseteq Range(c.jobs) THEN "run" ELSE "fatal")
RunAll(s, c)       == [phase |-> "done", written |-> TRUE]

CStep(s, c) ==
  CASE s.phase = "read" -> ReadFile(s, c) [] s.phase = "parse" -> ParseFile(s, c)
    [] s.phase = "version" -> CheckVersion(s, c) [] s.phase = "ids" -> CheckIds(s, c)
    [] s.phase = "relations" -> CheckRels(s, c) [] s.phase = "jobs" -> SelectJobs(s, c)
    [] s.phase = "run" -> RunAll(s, c) [] OTHER -> s
Ended(s) == s.phase \in {"done", "fatal"}

-----------------------------------------------------------------------------
(* The same without any order of checks                                       *)
Defective(c) ==
  \/ c.file # "ok" \/ c.toml # "ok" \/ c.missing # "none" \/ c.value # "none" \/ c.version \notin {"none", "0"}
  \/ \E i, j \in 1..Len(c.arts) : i # j /\ c.arts[i] = c.arts[j]
  \/ \E i \in 1..Len(c.rels) : \E x \in {c.rels[i].upper} \cup Range(c.rels[i].lower) : ~\E k \in 1..Len(c.arts) : c.arts[k] = x
  \/ Wanted(c) = <<>>
  \/ \E i \in 1..Len(Wanted(c)) : ~\E k \in 1..Len(c.jobs) : c.jobs[k] = Wanted(c)[i]
=============================================================================
