----------------------------- MODULE MC_Config -----------------------------
(* All configurations with up to two defects of the file itself, and all      *)
(* small lists of artefacts, relations and jobs.                              *)
EXTENDS Config
VARIABLES c, s
vars == <<c, s>>

Mandatory == {"artefacts", "relations", "art.id", "art.paths", "art.parser", "rel.upper", "rel.lower",
              "job.query", "job.format", "job.file"}
Values == {"parser", "query", "format", "src", "ignore", "paths"}
Rel(u, l) == [upper |-> u, lower |-> l]
Shapes == {[arts |-> a, rels |-> r] :
             a \in {<<>>, <<"a">>, <<"a", "b">>, <<"b", "a", "B">>, <<"a", "b", "a">>, <<"a", "a">>, <<"b", "c", "a", "c">>},
             r \in {<<>>, <<Rel("a", <<"b">>)>>, <<Rel("a", <<"b", "B">>)>>, <<Rel("b", <<>>), Rel("a", <<"b">>)>>, <<Rel("a", <<"a">>)>>,
                    <<Rel("a", <<"b">>), Rel("a", <<"b">>)>>, <<Rel("x", <<"a">>)>>, <<Rel("a", <<"b">>), Rel("b", <<"a", "x">>)>>,
                    <<Rel("", <<"a">>)>>, <<Rel("A", <<>>)>>}}
Good == [arts |-> <<"a", "b">>, rels |-> <<Rel("a", <<"b">>)>>]
Cfg(f, t, m, vl, v, sh, d, q) ==
  [file |-> f, toml |-> t, missing |-> m, value |-> vl, version |-> v, arts |-> sh.arts, rels |-> sh.rels,
   jobs |-> <<"t", "u">>, defaults |-> d, req |-> q]
Reqs == {<<>>, <<"t">>, <<"u", "t">>, <<"v">>, <<"t", "T">>}
Defs == {<<>>, <<"u">>, <<"t", "nope">>}
Configs ==
     {Cfg("ok", "ok", "none", "none", v, sh, d, q) : v \in {"none", "0", "1"}, sh \in Shapes, d \in Defs, q \in Reqs}
\cup {Cfg(f, t, m, vl, v, Good, d, <<"t">>) :
         f \in {"ok", "missing", "dir", "denied"}, t \in {"ok", "syntax", "utf8", "twice", "type"}, m \in {"none"} \cup Mandatory,
         vl \in {"none"} \cup Values, v \in {"none", "0", "1", "2", "4294967295", "4294967296", "-1"}, d \in {<<>>, <<"u">>}}

Init == c \in Configs /\ s = CStart
Next == ~Ended(s) /\ s' = CStep(s, c) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

C09_Fatal == Ended(s) => (s.phase = "fatal") = Defective(c)
C09_NoEffect == Defective(c) => ~s.written
C09_Ends == <>Ended(s)
=============================================================================
