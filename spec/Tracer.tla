------------------------------- MODULE Tracer -------------------------------
(* Tracing as the machine of src/controller.rs and src/trace.rs.              *)
(*                                                                            *)
(* A project p is [arts, rels]: arts is a sequence of artefacts               *)
(*   [id, ignore \in {"unset","true","false"}, refTitle \in BOOLEAN,          *)
(*    reqs: requirements as read, with repetitions, errs: input errors]       *)
(* and rels a sequence of relations [upper: id, lower: sequence of ids].      *)
(*                                                                            *)
(* The machine t first collects artefact by artefact, in the order of their   *)
(* ids, then walks relation by relation and upper requirement by upper        *)
(* requirement, and finally turns links that never resolved into findings.    *)
EXTENDS Model

ArtIds(p) == {p.arts[i].id : i \in 1..Len(p.arts)}
Art(p, id) == p.arts[CHOOSE i \in 1..Len(p.arts) : p.arts[i].id = id]
ArtOrder(p) == SortStrings([i \in 1..Len(p.arts) |-> p.arts[i].id])

-----------------------------------------------------------------------------
(* Collection of one artefact: the first definition of an id is kept.         *)
FirstDef(reqs, i) == \A j \in 1..(i-1) : reqs[j].id # reqs[i].id
SelectIdx(s, P(_)) == LET RECURSIVE f(_)
                          f(i) == IF i > Len(s) THEN <<>>
                                  ELSE IF P(i) THEN <<s[i]>> \o f(i + 1) ELSE f(i + 1)
                      IN f(1)
\* (the common case first, only because it is so much faster)
NoRepeats(reqs) == Cardinality({reqs[i].id : i \in 1..Len(reqs)}) = Len(reqs)
Kept(reqs) == IF NoRepeats(reqs) THEN reqs ELSE SelectIdx(reqs, LAMBDA i : FirstDef(reqs, i))
Repeated(reqs) == IF NoRepeats(reqs) THEN <<>> ELSE SelectIdx(reqs, LAMBDA i : ~FirstDef(reqs, i))
ById(reqs, id) == reqs[CHOOSE i \in 1..Len(reqs) : reqs[i].id = id]

IgnoresDerived(p, a) ==
  CASE a.ignore = "true"  -> TRUE
    [] a.ignore = "false" -> FALSE
    [] OTHER -> ~\E i \in 1..Len(p.rels) : a.id \in Range(p.rels[i].lower)

\* the findings that belong to an artefact
ArtErrs(a) ==
  LET kept == Kept(a.reqs) IN
  a.errs
  \o MapSeq(Repeated(a.reqs), LAMBDA r : ErrDupReq(ById(kept, r.id), r))
  \o (IF a.refTitle
      THEN MapSeq(SelectSeq(kept, LAMBDA r : r.title = <<>>), ErrReqNoTitle)
      ELSE <<>>)

-----------------------------------------------------------------------------
(* State of the tracer:                                                       *)
(*   n      artefacts added so far                                            *)
(*   first  the first definition of every id, over all artefacts so far       *)
(*   own    artefact id |-> its requirements that are first definitions       *)
(*   derived  set of <<artefact, id>> that did not cover anything yet         *)
(*   openCov, openDep  links <<upper id, lower id>> that did not resolve yet  *)
(*   ri, ui   relation and upper requirement that come next                   *)
(*   rels   results per relation;  errs  findings;  done                      *)
TStart(p) ==
  [n |-> 0, first |-> <<>>, own |-> [a \in ArtIds(p) |-> <<>>], derived |-> {},
   openCov |-> {}, openDep |-> {}, ri |-> 1, ui |-> 1, cov |-> <<>>, unc |-> <<>>,
   rels |-> <<>>, errs |-> <<>>, done |-> FALSE]

AddArtefact(t, p) ==
  LET a    == Art(p, ArtOrder(p)[t.n + 1])
      kept == Kept(a.reqs)
      ids  == {t.first[i].id : i \in 1..Len(t.first)}
      new  == SelectSeq(kept, LAMBDA r : r.id \notin ids)
      dup  == SelectSeq(kept, LAMBDA r : r.id \in ids)
  IN [t EXCEPT
        !.n = @ + 1,
        !.first = @ \o new,
        !.own[a.id] = new,
        !.derived = IF IgnoresDerived(p, a) THEN @
                    ELSE @ \cup {<<a.id, new[i].id>> : i \in 1..Len(new)},
        !.openCov = @ \cup UNION {{<<new[i].covers[j].id, new[i].id>> :
                                     j \in 1..Len(new[i].covers)} : i \in 1..Len(new)},
        !.openDep = @ \cup UNION {{<<new[i].id, new[i].depends[j].id>> :
                                     j \in 1..Len(new[i].depends)} : i \in 1..Len(new)},
        !.errs = @ \o MapSeq(dup, LAMBDA r : ErrDupReq(ById(t.first, r.id), r))]

Cov(u, l, loc, dir) == [upper |-> u, lower |-> l, loc |-> loc, dir |-> dir]

\* Problems with the title of the reference c to requirement r of artefact a
TitleErrs(a, r, c, wrong) ==
  IF c.title = <<>>
  THEN IF a.refTitle THEN <<ErrRefNoTitle(r, c.loc)>> ELSE <<>>
  ELSE IF c.title # r.title THEN <<wrong>> ELSE <<>>

\* links from the upper requirement u down into artefact la, one per reference
Downwards(t, p, u, la) ==
  Flat(MapSeq(u.depends, LAMBDA d :
    MapSeq(SelectSeq(t.own[la], LAMBDA x : x.id = d.id), LAMBDA x :
      [cov |-> Cov(u.id, x.id, d.loc, "Downwards"), art |-> la,
       errs |-> IF d.title = <<>>
                THEN TitleErrs(Art(p, la), x, d, ErrConfig)
                ELSE TitleErrs(Art(p, la), x, d, ErrDependWrong(u, x, d.title[1], d.loc))])))
\* links from artefact la up to the upper requirement u of artefact ua
Upwards(t, p, ua, u, la) ==
  Flat(MapSeq(t.own[la], LAMBDA x :
    MapSeq(SelectSeq(x.covers, LAMBDA c : c.id = u.id), LAMBDA c :
      [cov |-> Cov(u.id, x.id, c.loc, "Upwards"), art |-> la,
       errs |-> IF c.title = <<>>
                THEN TitleErrs(Art(p, ua), u, c, ErrConfig)
                ELSE TitleErrs(Art(p, ua), u, c, ErrCoveredWrong(u, x, c.title[1], c.loc))])))

UpperReqs(p, ri) == Kept(Art(p, p.rels[ri].upper).reqs)

\* one upper requirement of the current relation
TraceUpper(t, p) ==
  LET rel == p.rels[t.ri]
      u   == UpperReqs(p, t.ri)[t.ui]
      dn  == Flat(MapSeq(rel.lower, LAMBDA la : Downwards(t, p, u, la)))
      up  == Flat(MapSeq(rel.lower, LAMBDA la : Upwards(t, p, rel.upper, u, la)))
      all == dn \o up
  IN [t EXCEPT
        !.ui = @ + 1,
        !.cov = @ \o MapSeq(all, LAMBDA x : x.cov),
        !.unc = IF all = <<>> THEN Append(@, u.id) ELSE @,
        !.errs = @ \o Flat(MapSeq(all, LAMBDA x : x.errs)),
        !.derived = @ \ {<<all[i].art, all[i].cov.lower>> : i \in 1..Len(all)},
        !.openDep = @ \ {<<u.id, dn[i].cov.lower>> : i \in 1..Len(dn)},
        !.openCov = @ \ {<<u.id, up[i].cov.lower>> : i \in 1..Len(up)}]

EndRelation(t, p) ==
  LET rel == p.rels[t.ri] IN
  [t EXCEPT
     !.ri = @ + 1, !.ui = 1, !.cov = <<>>, !.unc = <<>>,
     !.rels = Append(@, [upper |-> rel.upper, lower |-> rel.lower,
                         covered |-> t.cov, uncovered |-> t.unc]),
     !.errs = IF t.cov = <<>> THEN Append(@, ErrUnused(rel.upper, rel.lower)) ELSE @]

FirstRef(refs, id) == refs[CHOOSE i \in 1..Len(refs) :
                             refs[i].id = id /\ \A j \in 1..(i-1) : refs[j].id # id]
SetSeq(S) == LET RECURSIVE f(_)
                 f(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o f(T \ {x})
             IN f(S)

Validate(t) ==
  [t EXCEPT
     !.done = TRUE,
     !.errs = @
       \o MapSeq(SetSeq(t.openCov), LAMBDA x : LET r == ById(t.first, x[2]) IN
                   ErrCoversUnknown(r, x[1], FirstRef(r.covers, x[1]).loc))
       \o MapSeq(SetSeq(t.openDep), LAMBDA x : LET r == ById(t.first, x[1]) IN
                   ErrDependUnknown(r, x[2], FirstRef(r.depends, x[2]).loc))]

-----------------------------------------------------------------------------
\* which step comes next
TPhase(t, p) ==
  CASE t.done -> "Done"
    [] t.n < Len(p.arts) -> "AddArtefact"
    [] t.ri <= Len(p.rels) /\ t.ui <= Len(UpperReqs(p, t.ri)) -> "TraceUpper"
    [] t.ri <= Len(p.rels) -> "EndRelation"
    [] OTHER -> "Validate"
TStep(t, p) ==
  CASE TPhase(t, p) = "AddArtefact" -> AddArtefact(t, p)
    [] TPhase(t, p) = "TraceUpper"  -> TraceUpper(t, p)
    [] TPhase(t, p) = "EndRelation" -> EndRelation(t, p)
    [] TPhase(t, p) = "Validate"    -> Validate(t)
    [] OTHER -> t
RECURSIVE TRun(_, _)
TRun(t, p) == IF t.done THEN t ELSE TRun(TStep(t, p), p)

\* number of steps until done
RECURSIVE SumUpper(_, _)
SumUpper(p, i) == IF i > Len(p.rels) THEN 0 ELSE Len(UpperReqs(p, i)) + 1 + SumUpper(p, i + 1)
TSteps(p) == Len(p.arts) + SumUpper(p, 1) + 1
=============================================================================
