------------------------------- MODULE JsonIO -------------------------------
(* Export of requirements as JSON and reading them again.                     *)
(*                                                                            *)
(* State x: [arts: artefacts with the requirements they hold, exports: what   *)
(* was written so far].  Export writes all requirements of all artefacts in   *)
(* the order of their ids (those with the same id in the order of artefacts); *)
(* Import makes the last export the only artefact.                            *)
EXTENDS Tracer

Sorted(reqs) == SortSeq(reqs, LAMBDA a, b : StrLess(a.id, b.id))
\* a sequence ordered by id, also when several requirements have the same id
Ordered2(p) == LET all == Flat(MapSeq(ArtOrder(p), LAMBDA id : Kept(Art(p, id).reqs)))
                   ids == SortStrings(SetSeq({all[i].id : i \in 1..Len(all)}))
               IN Flat(MapSeq(ids, LAMBDA id : SelectSeq(all, LAMBDA r : r.id = id)))

JStart(arts) == [arts |-> arts, exports |-> <<>>]
JExport(x) == [x EXCEPT !.exports = Append(@,
   [reqs |-> Ordered2(x), errs |-> Flat(MapSeq(x.arts, ArtErrs))])]
JImport(x) == [x EXCEPT !.arts =
   <<[id |-> "again", ignore |-> "unset", refTitle |-> FALSE, reqs |-> x.exports[Len(x.exports)].reqs, errs |-> <<>>]>>]
=============================================================================
