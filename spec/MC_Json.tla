------------------------------ MODULE MC_Json ------------------------------
(* Any number of exports and imports: nothing changes after the first import. *)
EXTENDS JsonIO, Families

CONSTANTS MaxExports
VARIABLES x
Init == \E p \in Projects : x = JStart(p.arts)
Export == Len(x.exports) < MaxExports /\ x' = JExport(x)
Import == Len(x.exports) > 0 /\ x' = JImport(x)
Next == Export \/ Import
Spec == Init /\ [][Next]_x

N == Len(x.exports)
IdsOf(reqs) == {r.id : r \in Range(reqs)}
NoDups(reqs) == Cardinality(IdsOf(reqs)) = Len(reqs)

\* the export is complete and ordered
C12_Export == \A i \in 1..N :
   \A j \in 1..(Len(x.exports[i].reqs) - 1) : StrLeq(x.exports[i].reqs[j].id, x.exports[i].reqs[j + 1].id)
C12_Complete == [][ Len(x'.exports) = N + 1 =>
   SameBag(x'.exports[N + 1].reqs, Flat(MapSeq(x.arts, LAMBDA a : Kept(a.reqs)))) ]_x
\* no export adds an id or loses one
C12_Ids == \A i, j \in 1..N : IdsOf(x.exports[i].reqs) = IdsOf(x.exports[j].reqs)
\* the same list again, if every id is defined once; otherwise the first definitions, and then
\* nothing changes any more
C12_Same == \A i \in 1..(N - 1) : NoDups(x.exports[i].reqs) => x.exports[i + 1].reqs = x.exports[i].reqs
C12_Keep == \A i \in 1..(N - 1) : x.exports[i + 1].reqs \in {x.exports[i].reqs, Kept(x.exports[i].reqs)}
=============================================================================
