-------------------------------- MODULE Cli --------------------------------
(* The command line (src/main.rs): what a list of arguments asks for.         *)
(* State c: [phase, opt: the option whose value comes next, cfg, base, log:   *)
(*   optional values, quiet, jobs, end: "", "usage" or "help"].               *)
(* Option names are those of `reqtrace --help`.                               *)
EXTENDS Glob

Flags  == {"quiet", "help", "version"}
Valued == {"config", "base", "log-level"}
ShortOf == [q |-> "quiet", h |-> "help", V |-> "version", c |-> "config", b |-> "base", l |-> "log-level"]

CStart == [phase |-> "opts", opt |-> "", cfg |-> <<>>, base |-> <<>>, log |-> <<>>, quiet |-> FALSE, jobs |-> <<>>, end |-> ""]
Usage(c) == [c EXCEPT !.end = "usage"]
Shown(c) == [c EXCEPT !.end = "help"]

\* an option with its value; every option can be given once and paths are not empty
Given(c, opt, v) ==
  CASE opt = "config" -> IF c.cfg # <<>> \/ v = "" THEN Usage(c) ELSE [c EXCEPT !.cfg = <<v>>, !.phase = "opts", !.opt = ""]
    [] opt = "base"   -> IF c.base # <<>> \/ v = "" THEN Usage(c) ELSE [c EXCEPT !.base = <<v>>, !.phase = "opts", !.opt = ""]
    [] OTHER          -> IF c.log # <<>> THEN Usage(c) ELSE [c EXCEPT !.log = <<v>>, !.phase = "opts", !.opt = ""]
Flag(c, opt) ==
  CASE opt = "quiet" -> IF c.quiet THEN Usage(c) ELSE [c EXCEPT !.quiet = TRUE]
    [] OTHER -> Shown(c)
AskFor(c, opt) == [c EXCEPT !.phase = "value", !.opt = opt]

\* options of one letter, from the i-th letter of the argument on
RECURSIVE Letters(_, _, _)
Letters(c, a, i) ==
  IF i > Len(a) \/ c.end # "" THEN c
  ELSE IF Ch(a, i) \notin DOMAIN ShortOf THEN Usage(c)
  ELSE LET o == ShortOf[Ch(a, i)] IN
       IF o \in Flags THEN Letters(Flag(c, o), a, i + 1)
       ELSE IF i = Len(a) THEN AskFor(c, o)
       ELSE Given(c, o, From(a, IF Ch(a, i + 1) = "=" THEN i + 2 ELSE i + 1))

Long(c, a) ==
  LET e == FindFrom(a, "=", 3)
      o == IF e = 0 THEN From(a, 3) ELSE SubSeq(a, 3, e - 1) IN
  IF o \in Flags THEN (IF e = 0 THEN Flag(c, o) ELSE Usage(c))
  ELSE IF o \in Valued THEN (IF e = 0 THEN AskFor(c, o) ELSE Given(c, o, From(a, e + 1)))
  ELSE Usage(c)

LooksLikeOption(a) == Len(a) > 1 /\ Ch(a, 1) = "-"
Kind(c, a) ==
  CASE c.end # ""                 -> "Over"
    [] c.phase = "raw"            -> "Job"
    [] c.phase = "value"          -> "Value"
    [] a = "--"                   -> "Separator"
    [] Len(a) > 2 /\ UpTo(a, 2) = "--" -> "Long"
    [] LooksLikeOption(a)         -> "Letters"
    [] OTHER                      -> "Job"
CStep(c, a) ==
  CASE Kind(c, a) = "Over"      -> c
    [] Kind(c, a) = "Value"     -> IF LooksLikeOption(a) THEN Usage(c) ELSE Given(c, c.opt, a)
    [] Kind(c, a) = "Separator" -> [c EXCEPT !.phase = "raw"]
    [] Kind(c, a) = "Long"      -> Long(c, a)
    [] Kind(c, a) = "Letters"   -> Letters(c, a, 2)
    [] OTHER                    -> [c EXCEPT !.jobs = Append(@, a)]
CEnd(c) == IF c.end = "" /\ c.phase = "value" THEN Usage(c) ELSE c
RECURSIVE CRun(_, _, _)
CRun(c, args, i) == IF i > Len(args) THEN CEnd(c) ELSE CRun(CStep(c, args[i]), args, i + 1)
Parsed(args) == CRun(CStart, args, 1)

-----------------------------------------------------------------------------
(* What follows from it in a world                                            *)
(*   [cwd, configs: sequence of [p, ok, tag, jobs, defaults], bases: sequence *)
(*    of [p, tag, clean], files: paths of all files]; a job is                *)
(*   [name, file, out].                                                       *)
(* Result: [rc, files: set of [p, tok], out: sequence of tok]                 *)
Default(o, d) == IF o = <<>> THEN d ELSE o[1]
Nothing(rc) == [rc |-> rc, files |-> {}, out |-> <<>>]
At_(list, p) == SelectSeq(list, LAMBDA x : x.p = p)

\* a later job replaces the file of an earlier one
Put(files, p, tok) == {f \in files : f.p # p} \cup {[p |-> p, tok |-> tok]}
RECURSIVE Execute(_, _, _, _)
Execute(res, todo, cfg, base) ==
  IF todo = <<>> THEN res
  ELSE LET j == Head(todo)
           tok == <<cfg.tag, j.out, base.tag>> IN
       IF base.blocked /\ j.file # "-" /\ ~IsAbs(j.file) THEN [res EXCEPT !.rc = 2]
       ELSE Execute(IF j.file = "-" THEN [res EXCEPT !.out = Append(@, tok)]
               ELSE [res EXCEPT !.files = Put(@, Resolve(base.p, j.file), tok)], Tail(todo), cfg, base)
Outcome(c, w) ==
  CASE c.end = "usage" -> Nothing(2)
    [] c.end = "help"  -> Nothing(0)
    [] OTHER ->
       LET found == At_(w.configs, Resolve(w.cwd, Default(c.cfg, "requirements.toml")))
           bp == Resolve(w.cwd, Default(c.base, "."))
           known == At_(w.bases, bp)
           \* nothing can be written below a base that is no directory
           base == IF known = <<>> THEN [p |-> bp, tag |-> "none", clean |-> FALSE, blocked |-> bp \in Range(w.files)]
                   ELSE [p |-> bp, tag |-> known[1].tag, clean |-> known[1].clean, blocked |-> FALSE]
       IN IF found = <<>> THEN Nothing(2)
          ELSE IF ~found[1].ok THEN Nothing(2)
          ELSE LET cfg == found[1]
                   names == IF c.jobs = <<>> THEN cfg.defaults ELSE c.jobs
                   jobs == {cfg.jobs[i].name : i \in 1..Len(cfg.jobs)}
                   job(n) == cfg.jobs[CHOOSE i \in 1..Len(cfg.jobs) : cfg.jobs[i].name = n]
               IN IF names = <<>> \/ \E i \in 1..Len(names) : names[i] \notin jobs THEN Nothing(2)
                  ELSE Execute(Nothing(IF base.clean THEN 0 ELSE 1), [i \in 1..Len(names) |-> job(names[i])], cfg, base)
=============================================================================
