----------------------------- MODULE MC_System -----------------------------
(* All projects of two artefacts over small alphabets of files of every kind: *)
(* nothing that is in a file gets lost on the way to the result.              *)
EXTENDS System
CONSTANTS Wide      \* FALSE: fewer files
VARIABLES p, y
vars == <<p, y>>

F0 == [file |-> "", name |-> "", gone |-> FALSE, lines |-> <<>>, fail |-> 0 - 1, chunks |-> <<>>, reqs |-> <<>>]
MdDocs == {<<>>, <<"# AA: t\n", "Covers: BB\n">>, <<"# AA: t\n", "\n", "Depends:\n", "* BB: u\n", "* CC\n">>,
           <<"# AA: t\n", "\n", "## AA: u\n", "Covers: BB, BB\n">>}
          \cup (IF Wide THEN {<<"# AA: t\n", "Covers: BB\n", "oops\n", "# CC: w\n">>, <<"# AA: t\n", "Note: x\n", "Note: y\n", "# BB: u\n", "Covers: AA\n">>} ELSE {})
MdFiles(n) == {[F0 EXCEPT !.file = n, !.name = n, !.lines = d] : d \in MdDocs}
              \cup {[F0 EXCEPT !.file = n, !.name = n, !.lines = <<"# AA: t\n", "Covers: BB\n">>, !.fail = k] : k \in 0..2}
              \cup {[F0 EXCEPT !.file = n, !.name = n, !.gone = TRUE]}
MonoFiles(n) == {[F0 EXCEPT !.file = n, !.name = "BB.md", !.lines = d] : d \in {<<>>, <<"u\n", "=> AA: t\n">>, <<"u\n", "=> CC\n", "=> AA\n">>}}
It(n, x) == [RS!Chunk("item", n) EXCEPT !.it = "fn", !.ty = <<n>>]
Arg(x) == [RS!Chunk("arg", x) EXCEPT !.tok = "ident"]
Fn(n, inner) == <<RS!Chunk("text", "fn "), It(n, 0), RS!Chunk("text", "() {")>> \o inner \o <<RS!Chunk("close", "}")>>
Covering(i) == <<RS!Chunk("mark", "requirement_covered"), RS!Chunk("text", "!("), Arg(i), RS!Chunk("end", ")"), RS!Chunk("text", ";")>>
Sources_ == {<<>>, Fn("BB", Covering("AA")), Fn("BB", Covering("AA") \o Covering("CC")), Covering("AA")}
            \cup (IF Wide THEN {Fn("BB", Fn("f", Covering("AA"))), Fn("BB", <<>>) \o <<RS!Chunk("bad", "} ")>>} ELSE {})
RustFiles(n) == {[F0 EXCEPT !.file = n, !.name = n, !.chunks = s] : s \in Sources_}
J(id, cov) == [Req(id, <<"t">>, LocLine("j", 1)) EXCEPT !.covers = cov]
JsonFiles(n) == {[F0 EXCEPT !.file = n, !.name = n, !.reqs = r] :
                   r \in {<<J("AA", <<>>), J("CC", <<Ref("BB", <<>>, NoLoc)>>)>>, <<J("BB", <<Ref("AA", <<"t">>, NoLoc)>>), J("BB", <<>>)>>}}

A1(id, kind, files) == [id |-> id, kind |-> kind, ignore |-> "unset", refTitle |-> FALSE, files |-> files]
Uppers == {A1("a", "md", <<f>>) : f \in MdFiles("a.md")} \cup {A1("a", "json", <<f>>) : f \in JsonFiles("a.json")}
Lowers == {A1("b", "mono", <<f>>) : f \in MonoFiles("BB.md")} \cup {A1("b", "rust", <<f, g>>) : f \in RustFiles("f.rs"), g \in RustFiles("g.rs")}
          \cup {A1("b", "json", <<f>>) : f \in JsonFiles("b.json")} \cup {A1("b", "rust", <<>>), A1("b", "md", <<F0, F0>>)}
Rels == {<<>>, <<[upper |-> "a", lower |-> <<"b">>]>>, <<[upper |-> "b", lower |-> <<"a">>]>>,
         <<[upper |-> "a", lower |-> <<"b">>], [upper |-> "b", lower |-> <<"a", "b">>]>>}

Init == /\ \E u \in Uppers, w \in Lowers, r \in Rels, ig \in {"unset", "false"}, rt \in BOOLEAN :
             p = [arts |-> <<[w EXCEPT !.ignore = ig], [u EXCEPT !.refTitle = rt]>>, rels |-> r]
        /\ y = YStart
Step(name) == YPhase(y, p) = name /\ y' = YStep(y, p) /\ UNCHANGED p
Next == \/ Step("ReadFile") \/ Step("CloseArtefact") \/ Step("StartTrace")
        \/ Step("AddArtefact") \/ Step("TraceUpper") \/ Step("EndRelation") \/ Step("Validate")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Ready == YPhase(y, p) = "Done"
T == y.t[1]
Pr == Read_(y, p)
InFiles(a) == Flat(MapSeq(a.files, LAMBDA f : Reading(a.kind, f).reqs))
ErrsIn(a) == Flat(MapSeq(a.files, LAMBDA f : Reading(a.kind, f).errs))
\* every requirement of every file is kept or reported as defined again
C25_Conserved == Ready => \A i \in 1..Len(p.arts) :
  LET a == p.arts[i] b == y.arts[i] IN
  IF ~Fits(a) THEN b.reqs = <<>> /\ b.errs = <<ErrConfig>>
  ELSE /\ SameBag(b.reqs, InFiles(a)) /\ SameBag(b.errs, ErrsIn(a))
       /\ Len(b.reqs) = Len(Kept(b.reqs)) + Len(Pick(ArtErrs(b), {"DupReq"}))
\* the first definitions of all ids; the others are reported
C25_First == Ready =>
  Len(T.first) + Len(Pick(T.errs, {"DupReq"})) = Len(Flat(MapSeq(y.arts, LAMBDA a : Kept(a.reqs))))
AllCovered == Flat(MapSeq(T.rels, LAMBDA r : r.covered))
\* every reference of a first definition leads somewhere or is reported
C25_References == Ready => \A r \in Range(T.first) :
  /\ \A c \in Range(r.covers) : \/ \E k \in Range(AllCovered) : k.lower = r.id /\ k.upper = c.id /\ k.dir = "Upwards" /\ k.loc = c.loc
                                \/ \E e \in Range(T.errs) : e.k = "CoversUnknown" /\ e.x = r.id /\ e.y = c.id
  /\ \A d \in Range(r.depends) : \/ \E k \in Range(AllCovered) : k.upper = r.id /\ k.lower = d.id /\ k.dir = "Downwards" /\ k.loc = d.loc
                                 \/ \E e \in Range(T.errs) : e.k = "DependUnknown" /\ e.x = r.id /\ e.y = d.id
\* every upper requirement of a relation is covered or not
C25_Uppers == Ready => \A i \in 1..Len(T.rels) :
  {c.upper : c \in Range(T.rels[i].covered)} \cup Range(T.rels[i].uncovered) = {r.id : r \in Range(UpperReqs(Pr, i))}
\* exit code 0 means that there is nothing to say
C25_Verdict == Ready => (~YVerdict(y).Trace <=>
  /\ T.errs = <<>> /\ T.derived = {} /\ \A i \in 1..Len(T.rels) : T.rels[i].uncovered = <<>>
  /\ \A i \in 1..Len(y.arts) : ArtErrs(y.arts[i]) = <<>>)
\* what was read stays as it is
C25_Keep == [][ \A i \in 1..Len(y.arts) : y'.arts[i] = y.arts[i] ]_vars
C25_Ends == <>Ready
=============================================================================
