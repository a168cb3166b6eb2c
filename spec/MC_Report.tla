----------------------------- MODULE MC_Report -----------------------------
(* Reports of all small projects: every finding has an entry that tells it    *)
(* apart, there are no other entries, and the matrix is symmetric.            *)
EXTENDS Pipeline, Families

VARIABLES p, tr, w
vars == <<p, tr, w>>

NoResult == [arts |-> <<>>, rels |-> <<>>, derived |-> <<>>, errs |-> <<>>]
Init == p \in Projects /\ tr = NoResult /\ w = [todo |-> <<>>, md |-> <<>>, gnu |-> <<>>]
Trace == /\ tr = NoResult
         /\ tr' = Result(p, TRun(TStart(p), p))
         /\ w' = WStart(tr')
         /\ UNCHANGED p
Write(sec) == w.todo # <<>> /\ Head(w.todo).sec = sec /\ w' = WStep(w, tr, FALSE, FALSE) /\ UNCHANGED <<p, tr>>
WriteInput     == Write("input")
WriteTracing   == Write("tracing")
WriteUncovered == Write("uncovered")
WriteDerived   == Write("derived")
Next == Trace \/ WriteInput \/ WriteTracing \/ WriteUncovered \/ WriteDerived
Spec == Init /\ [][Next]_vars

Done == w.todo = <<>>
-----------------------------------------------------------------------------
\* everything a finding says
Says(x) == CASE x.sec \in {"uncovered", "derived"} -> <<x.id>>
             [] x.e.k = "Unused" -> <<x.e.y>> \o x.e.lower
             [] x.e.k = "DupReq" -> <<x.e.r1.id, LocText(x.e.r1.loc), LocText(x.e.r2.loc)>>
             [] x.e.k = "ReqNoTitle" -> <<x.e.r1.id>>
             [] x.e.k \in {"CoversUnknown", "DependUnknown"} -> <<x.e.r1.id, x.e.y, LocText(x.e.loc)>>
             [] x.e.k = "RefNoTitle" -> <<x.e.r1.id, LocText(x.e.loc)>>
             [] OTHER -> <<x.e.z, LocText(x.e.loc)>>
Tells(entry, x) == /\ entry.sec = x.sec
                   /\ \A i \in 1..Len(Says(x)) : Contains(entry.text \o entry.sub, Says(x)[i])

C10_Complete == Done => \A i \in 1..Len(Work(tr)) :
   /\ \E m \in Range(w.md) : Tells(m, Work(tr)[i])
   /\ \E g \in Range(w.gnu) : Tells(g, Work(tr)[i])
C10_NothingElse == Done =>
   /\ Len(w.gnu) = Len(Work(tr))
   /\ \A m \in Range(w.md) : \E i \in 1..Len(Work(tr)) : Tells(m, Work(tr)[i])
\* only findings that say the same are merged
C10_NoCollision == Done =>
   \A i, j \in 1..Len(Work(tr)) :
      LET x == Work(tr)[i] y == Work(tr)[j] IN
      (x.sec = "tracing" /\ y.sec = "tracing" /\ MdEntry(tr, x, FALSE, FALSE) = MdEntry(tr, y, FALSE, FALSE)) => x = y

Bs == Blocks(tr, FALSE)
\* a link is shown upwards at the lower requirement exactly if it is shown downwards at the upper one
IdOfHead(b) == b.head
UpPairs == UNION {UNION {{<<ReqLink(Shown(tr, tr.arts[i].id, tr.arts[i].reqs[j].id, FALSE)), u.rel, k[1], k[2]>> : k \in u.links}
                          : u \in Block(tr, tr.arts[i], tr.arts[i].reqs[j].id, FALSE).up}
                  : <<i, j>> \in {z \in (1..Len(tr.arts)) \X (1..10) : z[2] <= Len(tr.arts[z[1]].reqs)}}
DownPairs == UNION {UNION {{<<k[1], u.rel, ReqLink(Shown(tr, tr.arts[i].id, tr.arts[i].reqs[j].id, FALSE)), k[2]>> : k \in u.links}
                          : u \in Block(tr, tr.arts[i], tr.arts[i].reqs[j].id, FALSE).down}
                  : <<i, j>> \in {z \in (1..Len(tr.arts)) \X (1..10) : z[2] <= Len(tr.arts[z[1]].reqs)}}
C11_Symmetric == (Work(tr) = w.todo) => UpPairs = DownPairs
C11_OneEach == (Work(tr) = w.todo) =>
   Len(Bs) = Len(Flat(MapSeq(tr.arts, LAMBDA a : a.reqs)))
\* the marks agree with the findings
C11_Marks == (Work(tr) = w.todo) =>
   \A i \in 1..Len(tr.arts) : \A j \in 1..Len(tr.arts[i].reqs) :
     LET a == tr.arts[i] id == a.reqs[j].id b == Block(tr, a, id, FALSE) IN
     /\ \A r \in Range(tr.rels) : r.upper = a.id =>
          ((id \in Range(r.uncovered)) <=> \E d \in b.down : d.rel = RelText(r.upper, r.lower) /\ d.uncovered)
     /\ (FirstArt(tr, id).id = a.id /\ ~a.ignore) =>
          (b.derived <=> \E d \in Range(tr.derived) : d.art = a.id /\ id \in Range(d.ids))

C13_Tags == (Work(tr) = w.todo) =>
   /\ Len(TagLines(tr)) = Cardinality({<<i, j>> \in (1..Len(tr.arts)) \X (1..10) :
                                          j <= Len(tr.arts[i].reqs) /\ tr.arts[i].reqs[j].loc.k \in {"L", "C"}})
   /\ IsSorted(SortStrings(TagLines(tr)))
   /\ SameBag(SortStrings(TagLines(tr)), TagLines(tr))
=============================================================================
