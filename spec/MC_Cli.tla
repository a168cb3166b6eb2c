------------------------------- MODULE MC_Cli -------------------------------
(* All command lines of up to MaxArgs arguments: the machine gives them the   *)
(* meaning that the notations, the order and the separator promise.           *)
EXTENDS Cli
CONSTANTS MaxArgs
VARIABLES args, i, c
vars == <<args, i, c>>
Alphabet == {"j", "k", "-", "", "--", "-q", "--quiet", "-c", "-cx", "-c=x", "--config", "--config=x", "-b", "--base=y", "-qb", "-qby", "-h",
             "--version", "-z", "-l", "--log-level=", "--quiet=1", "--nope", "-qz"}
Init == args \in UNION {[1..n -> Alphabet] : n \in 0..MaxArgs} /\ i = 1 /\ c = CStart
Take == i <= Len(args) /\ c' = CStep(c, args[i]) /\ i' = i + 1 /\ UNCHANGED args
End  == i = Len(args) + 1 /\ c' = CEnd(c) /\ i' = i + 1 /\ UNCHANGED args
Next == Take \/ End
Spec == Init /\ [][Next]_vars

Over == i = Len(args) + 2
Fine == Over /\ c.end = ""
\* the same request in other words
Spelled(a) ==
  CASE a = "-cx" -> <<"-c", "x">> [] a = "-c=x" -> <<"--config", "x">> [] a = "--config=x" -> <<"-c", "x">>
    [] a = "--base=y" -> <<"-b", "y">> [] a = "-qby" -> <<"--quiet", "--base", "y">> [] a = "-qb" -> <<"--quiet", "-b">>
    [] a = "--log-level=" -> <<"-l", "">> [] a = "--quiet" -> <<"-q">> [] a = "--config" -> <<"-c">> [] OTHER -> <<a>>
\* only arguments that are options by their place
IsOption(k) == /\ \A j \in 1..(k - 1) : args[j] # "--"
               /\ (k > 1 => args[k - 1] \notin {"-c", "--config", "-b", "-l", "-qb"})
C26_Notations == Over => \A k \in 1..Len(args) : IsOption(k) =>
   LET d == Parsed(SubSeq(args, 1, k - 1) \o Spelled(args[k]) \o SubSeq(args, k + 1, Len(args))) IN
   /\ d.end = c.end
   /\ c.end = "" => d = c
\* jobs keep their order and options may stand anywhere
Swap(k) == [n \in 1..Len(args) |-> IF n = k THEN args[k + 1] ELSE IF n = k + 1 THEN args[k] ELSE args[n]]
Complete == {"-q", "--quiet", "-cx", "-c=x", "--config=x", "--base=y", "-qby", "--log-level="}
C26_Anywhere == Fine => \A k \in 1..(Len(args) - 1) :
   (IsOption(k) /\ args[k] \in Complete /\ args[k + 1] \in {"j", "k", "-", ""}) => Parsed(Swap(k)) = c
\* what stands behind the separator is a job, whatever it looks like
C26_Separator == Fine => \A k \in 1..Len(args) :
   (IsOption(k) /\ args[k] = "--") =>
      SubSeq(c.jobs, Len(c.jobs) - (Len(args) - k) + 1, Len(c.jobs)) = SubSeq(args, k + 1, Len(args))
\* every argument has a meaning or the line is refused
C26_Nothing == Over => (c.end = "" => \A k \in 1..Len(args) : IsOption(k) => args[k] \notin {"-z", "--nope", "-qz", "--quiet=1", "-h", "--version"})
C26_Refuse == Over /\ Len(args) > 0 => (args[Len(args)] \in {"-c", "--config", "-b", "-l", "-qb"} /\ IsOption(Len(args)) => c.end # "")
C26_Once == Over => \A j, k \in 1..Len(args) :
   (j < k /\ IsOption(j) /\ IsOption(k) /\ {args[j], args[k]} \subseteq {"-q", "--quiet", "-qby"}) => c.end # ""
=============================================================================
