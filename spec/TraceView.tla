----------------------------- MODULE TraceView -----------------------------
(* What an observed trace result (obs) has to show of the final state t of    *)
(* the tracer of project p, one view for each property.                       *)
EXTENDS Tracer

Pick(errs, kinds) == SelectSeq(errs, LAMBDA e : e.k \in kinds)
ObsArt(obs, id) == obs.arts[CHOOSE i \in 1..Len(obs.arts) : obs.arts[i].id = id]
SameArts(obs, p) == SameBag(MapSeq(obs.arts, LAMBDA a : a.id), MapSeq(p.arts, LAMBDA a : a.id))

SameRels(obs, t) ==
  /\ Len(obs.rels) = Len(t.rels)
  /\ \A i \in 1..Len(t.rels) : obs.rels[i].upper = t.rels[i].upper /\ obs.rels[i].lower = t.rels[i].lower

SameCovered(obs, t) ==
  /\ SameRels(obs, t)
  /\ \A i \in 1..Len(t.rels) : SameBag(obs.rels[i].covered, t.rels[i].covered)

SameUncovered(obs, t) ==
  /\ SameRels(obs, t)
  /\ \A i \in 1..Len(t.rels) : SameBag(obs.rels[i].uncovered, t.rels[i].uncovered)
  /\ SameSet(Pick(obs.errs, {"Unused"}), Pick(t.errs, {"Unused"}))

DerivedOf(t, id) == {x[2] : x \in {y \in t.derived : y[1] = id}}
ObsDerived(obs, id) == Flat(MapSeq(SelectSeq(obs.derived, LAMBDA d : d.art = id), LAMBDA d : d.ids))
SameDerived(obs, p, t) ==
  /\ SameArts(obs, p)
  /\ \A i \in 1..Len(p.arts) : LET a == p.arts[i] IN
       /\ ObsArt(obs, a.id).ignore = IgnoresDerived(p, a)
       /\ Range(ObsDerived(obs, a.id)) = DerivedOf(t, a.id)
       /\ Len(ObsDerived(obs, a.id)) = Cardinality(DerivedOf(t, a.id))
  /\ \A i \in 1..Len(obs.derived) : obs.derived[i].art \in ArtIds(p)

\* the location may be that of any of the references to the unknown id
Unknown == {"CoversUnknown", "DependUnknown"}
RefsOf(t, e) == IF e.k = "CoversUnknown" THEN ById(t.first, e.x).covers ELSE ById(t.first, e.x).depends
SameUnknown(obs, t) ==
  LET exp == Pick(t.errs, Unknown) got == Pick(obs.errs, Unknown) IN
  /\ {<<e.k, e.x, e.y>> : e \in Range(exp)} = {<<e.k, e.x, e.y>> : e \in Range(got)}
  /\ \A e \in Range(got) : \E c \in Range(RefsOf(t, e)) : c.id = e.y /\ c.loc = e.loc

TitleKinds == {"CoveredWrong", "DependWrong", "RefNoTitle"}
SameTitles(obs, p, t) ==
  /\ SameSet(Pick(obs.errs, TitleKinds), Pick(t.errs, TitleKinds))
  /\ SameArts(obs, p)
  /\ \A i \in 1..Len(p.arts) : LET a == p.arts[i] IN
       /\ ObsArt(obs, a.id).refTitle = a.refTitle
       /\ SameSet(Pick(ObsArt(obs, a.id).errs, {"ReqNoTitle"}), Pick(ArtErrs(a), {"ReqNoTitle"}))

Content(r) == <<r.id, r.title, r.loc, r.covers, r.depends, r.tags, Range(r.attrs)>>
SameDuplicates(obs, p, t) ==
  /\ SameBag(Pick(obs.errs, {"DupReq"}), Pick(t.errs, {"DupReq"}))
  /\ SameArts(obs, p)
  /\ \A i \in 1..Len(p.arts) : LET a == p.arts[i] IN
       /\ SameBag(Pick(ObsArt(obs, a.id).errs, {"DupReq"}), Pick(ArtErrs(a), {"DupReq"}))
       /\ SameBag(MapSeq(ObsArt(obs, a.id).reqs, Content), MapSeq(Kept(a.reqs), Content))
       /\ SameBag(MapSeq(ObsArt(obs, a.id).dups, Content), MapSeq(Repeated(a.reqs), Content))

SameTrace(obs, p, t) ==
  /\ SameCovered(obs, t) /\ SameUncovered(obs, t) /\ SameDerived(obs, p, t) /\ SameUnknown(obs, t)
  /\ SameTitles(obs, p, t) /\ SameDuplicates(obs, p, t)
=============================================================================
