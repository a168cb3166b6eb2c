------------------------------- MODULE MC_Doc -------------------------------
(* The document about all requirements, for all small projects.               *)
EXTENDS Pipeline, Families

VARIABLES p, tr, d
vars == <<p, tr, d>>

NoResult == [arts |-> <<>>, rels |-> <<>>, derived |-> <<>>, errs |-> <<>>]
Init == p \in Projects /\ tr = NoResult /\ d = DStart(NoResult)
Trace == tr = NoResult /\ tr' = Result(p, TRun(TStart(p), p)) /\ d' = DStart(tr') /\ UNCHANGED p
Write == d.left # <<>> /\ d' = DStep(d) /\ UNCHANGED <<p, tr>>
Next == Trace \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == tr # NoResult /\ d.left = <<>>
Shows(text, r) ==
  /\ StartsWith(text, "### " \o r.id \o ": ") /\ Contains(text, LocText(r.loc))
  /\ \A t \in Range(r.title) : Contains(text, t)
  /\ \A x \in Range(r.covers) \cup Range(r.depends) : Contains(text, "*   " \o x.id)
  /\ \A x \in Range(r.attrs) : Contains(text, Trim(x[2]))
C23_Complete == Done => \A r \in Range(AllReqs(tr)) : \E i \in 1..Len(d.doc) : d.ids[i] = r.id /\ Shows(d.doc[i], r)
C23_NothingElse == Done => /\ Len(d.doc) = Len(AllReqs(tr))
                           /\ \A i \in 1..Len(d.doc) : \E r \in Range(AllReqs(tr)) : d.doc[i] = DocText(r)
C23_Sorted == \A i \in 1..(Len(d.ids) - 1) : StrLeq(d.ids[i], d.ids[i + 1])
\* requirements with different texts or references have different entries
C23_Tells == Done => \A r, q \in Range(AllReqs(tr)) :
   DocText(r) = DocText(q) => /\ r.id = q.id /\ r.title = q.title /\ r.loc = q.loc
                              /\ MapSeq(r.covers, LAMBDA x : <<x.id, x.title>>) = MapSeq(q.covers, LAMBDA x : <<x.id, x.title>>)
                              /\ MapSeq(r.depends, LAMBDA x : <<x.id, x.title>>) = MapSeq(q.depends, LAMBDA x : <<x.id, x.title>>)
C23_Ends == <>Done
=============================================================================
