-------------------------------- MODULE Glob --------------------------------
(* Patterns for paths.  A path is a sequence of names.  `*` stands for any    *)
(* text within a name, `?` for one character, `[..]` and `[!..]` for a        *)
(* character of a class, and `**` for any number of directories; what it      *)
(* means as the last name of a pattern is left open.                          *)
EXTENDS Model

\* the position of the bracket that ends the class that starts at i, 0 if none
ClassEnd(p, i) == LET k == IF i + 1 <= Len(p) /\ Ch(p, i + 1) = "!" THEN i + 2 ELSE i + 1
                  IN FindFrom(p, "]", k + 1)
RECURSIVE InSet(_, _, _, _)
\* c is among the characters and ranges p[i..e]
InSet(p, i, e, c) ==
  IF i > e THEN FALSE
  ELSE IF i + 2 <= e /\ Ch(p, i + 1) = "-"
       THEN (Rank(Ch(p, i)) <= Rank(c) /\ Rank(c) <= Rank(Ch(p, i + 2))) \/ InSet(p, i + 3, e, c)
  ELSE Ch(p, i) = c \/ InSet(p, i + 1, e, c)
InClass(p, i, c) == LET e == ClassEnd(p, i) - 1 IN
  IF Ch(p, i + 1) = "!" THEN ~InSet(p, i + 2, e, c) ELSE InSet(p, i + 1, e, c)

RECURSIVE NameFrom(_, _, _, _)
NameFrom(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE CASE Ch(p, i) = "*" -> NameFrom(p, i + 1, s, j) \/ (j <= Len(s) /\ NameFrom(p, i, s, j + 1))
         [] Ch(p, i) = "?" -> j <= Len(s) /\ NameFrom(p, i + 1, s, j + 1)
         [] Ch(p, i) = "[" -> j <= Len(s) /\ InClass(p, i, Ch(s, j)) /\ NameFrom(p, ClassEnd(p, i) + 1, s, j + 1)
         [] OTHER -> j <= Len(s) /\ Ch(p, i) = Ch(s, j) /\ NameFrom(p, i + 1, s, j + 1)
NameMatches(p, s) == NameFrom(p, 1, s, 1)

RECURSIVE PathMatches(_, _)
\* ps: names with wildcards, ns: names
PathMatches(ps, ns) ==
  IF ps = <<>> THEN ns = <<>>
  ELSE IF Head(ps) = "**" THEN PathMatches(Tail(ps), ns) \/ (ns # <<>> /\ PathMatches(ps, Tail(ns)))
  ELSE ns # <<>> /\ NameMatches(Head(ps), Head(ns)) /\ PathMatches(Tail(ps), Tail(ns))

-----------------------------------------------------------------------------
(* The same, declaratively: some assignment of lengths to the parts of the    *)
(* pattern covers the name.                                                   *)
RECURSIVE Parts(_, _)
Parts(p, i) == IF i > Len(p) THEN <<>>
  ELSE IF Ch(p, i) = "[" THEN <<SubSeq(p, i, ClassEnd(p, i))>> \o Parts(p, ClassEnd(p, i) + 1)
  ELSE <<Ch(p, i)>> \o Parts(p, i + 1)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
PartFits(q, s) == \* the part q stands for s
  CASE q = "*" -> TRUE
    [] q = "?" -> Len(s) = 1
    [] Ch(q, 1) = "[" -> Len(s) = 1 /\ InClass(q, 1, s)
    [] OTHER -> s = q
DeclName(p, s) == LET q == Parts(p, 1) n == Len(q) IN
  \E f \in [1..n -> 0..Len(s)] :
     /\ \A k \in 1..n : q[k] # "*" => f[k] = 1
     /\ SumTo(f, n) = Len(s)
     /\ \A k \in 1..n : PartFits(q[k], SubSeq(s, SumTo(f, k - 1) + 1, SumTo(f, k)))
DeclPath(ps, ns) ==
  \E f \in [1..Len(ps) -> 0..Len(ns)] :
     /\ \A k \in 1..Len(ps) : ps[k] # "**" => f[k] = 1
     /\ SumTo(f, Len(ps)) = Len(ns)
     /\ \A k \in 1..Len(ps) : ps[k] = "**" \/ DeclName(ps[k], ns[SumTo(f, k)])

-----------------------------------------------------------------------------
(* Paths as text                                                              *)
Names(s) == SelectSeq(SplitAt(s, "/"), LAMBDA x : x # "" /\ x # ".")
RECURSIVE Up(_, _)
\* names with ".." taken away together with what is before
Up(done, ns) == IF ns = <<>> THEN done
                ELSE IF Head(ns) = ".." THEN Up(SubSeq(done, 1, Len(done) - 1), Tail(ns))
                ELSE Up(Append(done, Head(ns)), Tail(ns))
IsAbs(s) == StartsWith(s, "/")
\* the names of a path relative to the directory dir (a sequence of names)
Resolve(dir, s) == IF IsAbs(s) THEN Up(<<>>, Names(s)) ELSE Up(dir, Names(s))
=============================================================================
