------------------------------ MODULE MC_Rust ------------------------------
(* All sources of up to MaxEvents events: items are opened and closed, marks  *)
(* of all forms are met.                                                      *)
EXTENDS RustSrc
CONSTANTS MaxEvents
VARIABLES doc, s
vars == <<doc, s>>

Tx(t) == Chunk("text", t)
Item(it, t, ty, tr) == [Chunk("item", t) EXCEPT !.it = it, !.ty = ty, !.tr = tr]
Arg(tok, t) == [Chunk("arg", t) EXCEPT !.tok = tok]
MarkOf(args) == <<Tx("  "), Chunk("mark", "requirement_covered"), Tx("!(")>> \o args \o <<Chunk("end", ")"), Tx(";\n")>>

Opens == {
  [it |-> "fn", cs |-> <<Tx("fn "), Item("fn", "f", <<"f">>, <<>>), Tx("() {\n")>>],
  [it |-> "fn", cs |-> <<Tx("unsafe fn "), Item("fn", "gg", <<"gg">>, <<>>), Tx("() { ")>>],
  [it |-> "mod", cs |-> <<Tx("mod "), Item("mod", "m", <<"m">>, <<>>), Tx(" {\n")>>],
  [it |-> "impl", cs |-> <<Tx("impl "), Item("impl", "S", <<"S">>, <<>>), Tx(" {\n")>>],
  [it |-> "impl", cs |-> <<Tx("impl<T> Tr<T> for "), Item("impl", "W<T>", <<"W", "<", "T", ">">>, <<"Tr", "<", "T", ">">>), Tx(" {\n")>>],
  [it |-> "trait", cs |-> <<Tx("trait "), Item("trait", "Q", <<"Q">>, <<>>), Tx(" {\n")>>]}
Marks == {
  MarkOf(<<Arg("ident", "AA")>>),
  MarkOf(<<Arg("str", "\"BB\"")>>),
  MarkOf(<<Arg("ident", "AA"), Arg("other", ","), Tx(" "), Arg("str", "\"a \\\"t\\\"\"")>>),
  MarkOf(<<>>),
  MarkOf(<<Arg("other", "17")>>),
  MarkOf(<<Arg("ident", "AA"), Arg("other", ","), Arg("ident", "BB")>>),
  MarkOf(<<Arg("other", "1"), Arg("other", ","), Arg("str", "\"t\"")>>),
  MarkOf(<<Arg("ident", "AA"), Arg("other", ",")>>)}
Close == <<Chunk("close", "}"), Tx("\n")>>
\* marks are statements; outside of functions they can stand in the value of a constant
InConst(cs) == <<Tx("const C: () = {")>> \o cs \o <<Tx("};\n")>>

Top(st) == IF st = <<>> THEN "top" ELSE st[Len(st)].it
Fits(st, it) == CASE Top(st) \in {"top", "mod", "fn"} -> TRUE [] OTHER -> it = "fn"
MarkHere(st, cs) == IF Top(st) = "fn" THEN cs ELSE InConst(cs)

RECURSIVE Run(_, _)
Run(x, cs) == IF cs = <<>> THEN x ELSE Run(RStep(x, Head(cs)), Tail(cs))

Init == doc = <<>> /\ s = RStart("f")
Event(cs) == doc' = Append(doc, cs) /\ s' = Run(s, cs)
More == Len(doc) < MaxEvents
Enter == More /\ \E o \in Opens : Fits(s.stack, o.it) /\ Event(o.cs)
Leave == More /\ s.stack # <<>> /\ Event(Close)
Meet  == More /\ \E cs \in Marks : Event(MarkHere(s.stack, cs))
Next == Enter \/ Leave \/ Meet
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The meaning of a source without a machine: chunk i is inside of item j if  *)
(* j is before i and not closed between them.                                 *)
All == Flat(doc)
Depth(cs, i, j) == \* opened minus closed in i..j
  Cardinality({k \in i..j : cs[k].k = "item"}) - Cardinality({k \in i..j : cs[k].k = "close"})
Inside(cs, i, j) == cs[j].k = "item" /\ j < i /\ \A k \in j..i-1 : Depth(cs, j, k) > 0
Enclosing(cs, i) == SelectSeq([j \in 1..i-1 |-> j], LAMBDA j : Inside(cs, i, j))
Path(cs, i) == LET e == Enclosing(cs, i) IN Join([k \in 1..Len(e) |-> Symbol(cs[e[k]])], "::")
TextBefore(cs, i) == Concat([k \in 1..i-1 |-> cs[k].t])
RECURSIVE LastNl(_, _)
LastNl(t, i) == IF i = 0 THEN 0 ELSE IF Ch(t, i) = Nl THEN i ELSE LastNl(t, i - 1)
At(cs, i) == LET t == TextBefore(cs, i) IN
  LocCol("f", 1 + Cardinality({k \in 1..Len(t) : Ch(t, k) = Nl}), Len(t) - LastNl(t, Len(t)))
EndOf(cs, i) == CHOOSE e \in i..Len(cs) : cs[e].k = "end" /\ \A k \in i..e-1 : cs[k].k # "end"
ArgsOf(cs, i) == SelectSeq([k \in 1..EndOf(cs, i) - i |-> i + k], LAMBDA k : cs[k].k = "arg")
IsGood(cs, i) == LET a == ArgsOf(cs, i) IN
  \/ Len(a) = 1 /\ cs[a[1]].tok \in {"ident", "str"}
  \/ Len(a) = 3 /\ cs[a[1]].tok = "ident" /\ cs[a[3]].tok = "str"
IdOf(cs, i) == LET c == cs[ArgsOf(cs, i)[1]] IN IF c.tok = "str" THEN LitValue(c.t) ELSE c.t
TitleOf(cs, i) == LET a == ArgsOf(cs, i) IN IF Len(a) = 3 THEN <<LitValue(cs[a[3]].t)>> ELSE <<>>
MarksIn(cs) == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : cs[i].k = "mark")
Counts(cs) == SelectSeq(MarksIn(cs), LAMBDA i : IsGood(cs, i) /\ Enclosing(cs, i) # <<>>)

C19_Attributed ==
  LET cs == All ms == Counts(cs) IN
  /\ {r.id : r \in Range(s.reqs)} = {Path(cs, ms[k]) : k \in 1..Len(ms)}
  /\ Cardinality({r.id : r \in Range(s.reqs)}) = Len(s.reqs)
  /\ \A r \in Range(s.reqs) :
       LET mine == SelectSeq(ms, LAMBDA i : Path(cs, i) = r.id) IN
       /\ r.covers = [k \in 1..Len(mine) |-> Ref(IdOf(cs, mine[k]), TitleOf(cs, mine[k]), At(cs, mine[k]))]
       /\ LET e == Enclosing(cs, mine[1]) IN r.loc = At(cs, e[Len(e)])
       /\ r.title = <<>> /\ r.depends = <<>>
C19_Malformed ==
  LET cs == All
      bad == SelectSeq(MarksIn(cs), LAMBDA i : ~IsGood(cs, i) \/ Enclosing(cs, i) = <<>>) IN
  /\ Len(s.errs) = Len(bad)
  /\ \A k \in 1..Len(bad) : s.errs[k].k = "Format"
       /\ \E j \in bad[k]..EndOf(cs, bad[k]) : s.errs[k].loc = At(cs, j)
\* a mark never changes what was read before
C19_Grow == [][ /\ Len(s'.reqs) >= Len(s.reqs) /\ Len(s'.errs) >= Len(s.errs)
                /\ SubSeq(s'.errs, 1, Len(s.errs)) = s.errs
                /\ \A i \in 1..Len(s.reqs) : /\ s'.reqs[i].id = s.reqs[i].id /\ s'.reqs[i].loc = s.reqs[i].loc
                                             /\ SubSeq(s'.reqs[i].covers, 1, Len(s.reqs[i].covers)) = s.reqs[i].covers ]_vars
C19_Quiet == (\A i \in 1..Len(All) : All[i].k # "mark") => s.reqs = <<>> /\ s.errs = <<>>
ASSUME /\ LitValue("\"a\\\"\\\\n\\n\\u{e9}\"") = "a\"\\n\né" /\ LitValue("r#\"a\\n\"b\"#") = "a\\n\"b" /\ LitValue("r\"x\"") = "x" /\ LitValue("\"\"") = ""
=============================================================================
