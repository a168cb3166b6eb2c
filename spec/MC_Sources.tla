----------------------------- MODULE MC_Sources -----------------------------
(* One artefact over a small tree: all lists of up to MaxPaths paths, all     *)
(* sets of up to two faulty files, all orders of reading.                     *)
EXTENDS Sources
CONSTANTS MaxPaths
VARIABLES tree, base, art, q
vars == <<tree, base, art, q>>

F(p) == [p |-> p, kind |-> "file", health |-> "ok", reqs |-> <<Join(p, "/")>>, errs |-> <<>>]
D(p) == [p |-> p, kind |-> "dir", health |-> "ok", reqs |-> <<>>, errs |-> <<>>]
B == <<"b">>
Files == {F(<<"b", "a.rs">>), F(<<"b", "ab.rs">>), F(<<"b", "b.txt">>), F(<<"b", ".h.rs">>), F(<<"b", "s", "a.rs">>),
          F(<<"b", "s", "d", "a.rs">>), F(<<"b", "s", "d", "A.rs">>), F(<<"a.rs">>), F(<<"b", "[a].rs">>)}
Dirs == {D(<<"b", "s">>), D(<<"b", "s", "d">>), D(<<"b", "e.rs">>)}
Paths == {"a.rs", "./a.rs", "*.rs", "?.rs", "**/*.rs", "**/a.rs", "s/*", "s/**/a.rs", "[ab]*.rs", "[!a].txt", "no.rs", "n*.rs", "../a.rs",
          "s/d/[A-Z].rs", "*", "/b/a.rs", "/*.rs", "s", "***", "[a", "[[]a].rs", "s/../a.rs", "*/*/*.rs", ""}
Lists == UNION {[1..n -> Paths] : n \in 0..MaxPaths}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
Spoilt(bad, how) == {IF e \in bad THEN [e EXCEPT !.health = how] ELSE e : e \in Files} \cup Dirs

Init == /\ \E f1, f2 \in Files : \E how \in {"ok", "bad", "any"} :
             /\ how = "ok" => f1 = f2 /\ f1 = F(<<"a.rs">>)
             /\ tree = Listed(Spoilt({f1, f2}, how))
        /\ base = B
        /\ \E l \in Lists, m \in BOOLEAN : art = [id |-> "x", many |-> m, paths |-> l]
        /\ q = QStart(art)
Reject == ~q.done /\ Unusable(art) /\ q' = Refuse(q) /\ UNCHANGED <<tree, base, art>>
DoExpand == ~q.done /\ ~Unusable(art) /\ q.todo # <<>> /\ q' = Expand(q, tree, base, art) /\ UNCHANGED <<tree, base, art>>
DoRead == /\ ~q.done /\ ~Unusable(art) /\ q.todo = <<>> /\ q.queue # {}
          /\ LET x == CHOOSE x \in q.queue : TRUE IN q' = Read(q, x)
          /\ UNCHANGED <<tree, base, art>>
DoFinish == ~q.done /\ ~Unusable(art) /\ q.todo = <<>> /\ q.queue = {} /\ q' = Finish(q) /\ UNCHANGED <<tree, base, art>>
Next == Reject \/ DoExpand \/ DoRead \/ DoFinish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Which entries a path means, said once more without the machine             *)
Below(dir, p) == SubSeq(p, Len(dir) + 1, Len(p))
Means(path) ==
  LET up == \E i \in 1..Len(Names(path)) : Names(path)[i] = ".." IN
  IF ~art.many \/ up THEN {e \in Entries(tree) : e.p = Resolve(base, path)}
  ELSE IF Invalid(path) THEN {}
  ELSE {e \in Entries(tree) :
          IF IsAbs(path) THEN DeclPath(Names(path), e.p)
          ELSE Len(e.p) > Len(base) /\ SubSeq(e.p, 1, Len(base)) = base /\ DeclPath(Names(path), Below(base, e.p))}
Meant == UNION {Means(art.paths[i]) : i \in 1..Len(art.paths)}
C22_Files == q.done /\ ~q.config => q.files = {e.p : e \in {x \in Meant : x.kind = "file" /\ x.health # "bad"}}
C22_Missing == q.done /\ ~q.config =>
  \A i \in 1..Len(art.paths) : Means(art.paths[i]) = {} => \E m \in q.must : m.raw = art.paths[i]
C20_Isolated == q.done /\ ~q.config => q.got = {x \in Meant : x.kind = "file" /\ x.health = "ok"}
C20_Reported == q.done /\ ~q.config =>
  \A e \in Meant : e.kind = "file" /\ e.health = "bad" => \E m \in q.must : m.p = e.p
C20_Config == q.config => Unusable(art) /\ q.got = {} /\ q.files = {}
Ends == <>q.done
=============================================================================
