------------------------------ MODULE Families ------------------------------
(* Exhaustive families of small projects.                                     *)
EXTENDS Tracer

CONSTANTS Size      \* "links", "titles" or "dups": which dimension is spread out

L(n) == LocLine("f", n)
R(id, title, n, cov, dep) ==
  [Req(id, title, L(n)) EXCEPT !.covers = cov, !.depends = dep]
A(id, ignore, rt, reqs) == [id |-> id, ignore |-> ignore, refTitle |-> rt, reqs |-> reqs, errs |-> <<>>]
Rel(u, l) == [upper |-> u, lower |-> l]

\* lists of at most one reference
RefOpt(ids, titles, n) == {<<>>} \cup {<<Ref(i, x, L(n))>> : i \in ids, x \in titles}

NoT == <<>>
RelChoices == {<<>>, <<Rel("a", <<"b">>)>>, <<Rel("a", <<"b">>), Rel("b", <<"a">>)>>,
               <<Rel("a", <<"b", "c">>)>>, <<Rel("a", <<"b">>), Rel("a", <<"c">>)>>,
               <<Rel("a", <<"a">>)>>, <<Rel("b", <<"c">>), Rel("a", <<"b">>)>>, <<Rel("c", <<>>), Rel("a", <<"c">>)>>}

\* three artefacts, all reference structures between three requirements
LinkProjects ==
  {[arts |-> <<A("b", "unset", FALSE, <<R("S1", NoT, 1, sc, sd)>>),
               A("a", ia, FALSE, <<R("R1", NoT, 2, rc, rd)>>),
               A("c", "false", FALSE, <<R("U1", NoT, 3, uc, <<>>)>>)>>, rels |-> rs] :
     sc \in {<<>>} \cup {<<Ref("R1", NoT, L(10))>>, <<Ref("R1", NoT, L(10)), Ref("R1", NoT, L(11))>>,
                         <<Ref("XX", NoT, L(10)), Ref("U1", NoT, L(11))>>, <<Ref("S1", NoT, L(10))>>},
     sd \in RefOpt({"R1", "U1", "XX"}, {NoT}, 20),
     rc \in RefOpt({"R1", "S1"}, {NoT}, 30),
     rd \in {<<>>, <<Ref("S1", NoT, L(40))>>, <<Ref("S1", NoT, L(40)), Ref("U1", NoT, L(41))>>,
             <<Ref("S1", NoT, L(40)), Ref("S1", NoT, L(41)), Ref("R1", NoT, L(42))>>},
     uc \in RefOpt({"R1", "S1"}, {NoT}, 50),
     ia \in {"unset", "true", "false"}, rs \in RelChoices}

\* titles of requirements and references in both directions
Ts == {<<>>, <<"t">>, <<"T">>}
TitleProjects ==
  {[arts |-> <<A("a", "unset", fa, <<R("R1", ra, 1, <<>>, rd)>>),
               A("b", "unset", fb, <<R("S1", rb, 2, sc, <<>>)>>)>>,
    rels |-> rs] :
     fa \in BOOLEAN, fb \in BOOLEAN, ra \in Ts, rb \in Ts,
     rd \in RefOpt({"S1"}, Ts, 10) \cup {<<Ref("S1", x, L(10)), Ref("S1", y, L(11))>> : x \in Ts, y \in Ts},
     sc \in RefOpt({"R1"}, Ts, 20),
     rs \in {<<Rel("a", <<"b">>)>>, <<Rel("b", <<"a">>)>>, <<Rel("a", <<"b">>), Rel("a", <<"b">>)>>}}

\* the same id in one artefact and in several
Ids == {"R1", "S1"}
DupReqs(n, covers) == {<<>>} \cup {<<R(i, NoT, n, covers, <<>>)>> : i \in Ids}
                      \cup {<<R(i, NoT, n, covers, <<>>), R(j, <<"t">>, n + 1, <<>>, <<>>)>> : i \in Ids, j \in Ids}
                      \cup {<<R("R1", NoT, n, covers, <<>>), R("R1", NoT, n + 1, <<>>, <<>>), R("R1", NoT, n + 2, <<>>, <<>>)>>}
DupProjects ==
  {[arts |-> <<A("c", "false", FALSE, rc), A("a", "false", FALSE, ra), A("b", "unset", TRUE, rb)>>, rels |-> rs] :
     ra \in DupReqs(1, <<>>), rb \in DupReqs(5, <<Ref("R1", NoT, L(50))>>),
     rc \in DupReqs(9, <<Ref("S1", NoT, L(51))>>),
     rs \in {<<Rel("a", <<"b">>)>>, <<Rel("b", <<"a", "c">>)>>, <<Rel("c", <<"b">>), Rel("b", <<"b">>)>>}}

Projects == CASE Size = "links" -> LinkProjects
              [] Size = "titles" -> TitleProjects
              [] OTHER -> DupProjects
=============================================================================
