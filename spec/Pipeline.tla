------------------------------ MODULE Pipeline ------------------------------
(* From a project to its trace result as the reports see it: the state of a   *)
(* finished Tracer, with complete findings.                                   *)
EXTENDS TraceDecl, Reports

HeadOf(r) == [id |-> r.id, title |-> r.title, loc |-> r.loc]
NoHead == [id |-> "", title |-> <<>>, loc |-> NoLoc]
Finding(k, loc, r1, r2, y, z, lower) ==
  [k |-> k, loc |-> loc, r1 |-> r1, r2 |-> r2, y |-> y, z |-> z, msg |-> "", lower |-> lower]

FirstOf(p, id) == LET S == {a \in ArtIds(p) : Owns(p, a, id)} IN HeadOf(ReqOf(p, CHOOSE a \in S : TRUE, id))
Full(p, e) ==
  CASE e.k = "DupReq" -> Finding(e.k, NoLoc, [id |-> e.x, title |-> <<>>, loc |-> e.loc], [id |-> e.x, title |-> <<>>, loc |-> e.loc2], "", "", <<>>)
    [] e.k = "ReqNoTitle" -> Finding(e.k, NoLoc, [id |-> e.x, title |-> <<>>, loc |-> e.loc], NoHead, "", "", <<>>)
    [] e.k \in {"CoveredWrong", "DependWrong"} -> Finding(e.k, e.loc, FirstOf(p, e.x), FirstOf(p, e.y), "", e.z, <<>>)
    [] e.k = "RefNoTitle" -> Finding(e.k, e.loc, FirstOf(p, e.x), NoHead, "", "", <<>>)
    [] e.k \in {"CoversUnknown", "DependUnknown"} -> Finding(e.k, e.loc, FirstOf(p, e.x), NoHead, e.y, "", <<>>)
    [] e.k = "Unused" -> Finding(e.k, NoLoc, NoHead, NoHead, e.x, "", SplitAt(e.y, ","))
    [] OTHER -> Finding(e.k, e.loc, NoHead, NoHead, e.x, e.y, <<>>)

SortById(reqs) == SortSeq(reqs, LAMBDA a, b : StrLess(a.id, b.id))
Result(p, t) ==
  [arts |-> MapSeq(ArtOrder(p), LAMBDA id : LET a == Art(p, id) IN
              [id |-> id, ignore |-> IgnoresDerived(p, a), refTitle |-> a.refTitle,
               reqs |-> SortById(Kept(a.reqs)), errs |-> MapSeq(ArtErrs(a), LAMBDA e : Full(p, e))]),
   rels |-> t.rels,
   derived |-> MapSeq(ArtOrder(p), LAMBDA id : [art |-> id, ids |-> SortStrings(SetSeq({x[2] : x \in {y \in t.derived : y[1] = id}}))]),
   errs |-> MapSeq(t.errs, LAMBDA e : Full(p, e))]
=============================================================================
