------------------------------ MODULE TV_Json ------------------------------
(* Trace validation of JSON export and import.  A record is a project, the    *)
(* exports of a chain of runs in which each export is the input of the next,  *)
(* and the input errors that the trace output of the first run shows.         *)
EXTENDS JsonIO, Json
CONSTANTS TraceFile, Prop
Recs == ndJsonDeserialize(TraceFile)
VARIABLES l, x, n
vars == <<l, x, n>>
Rec == Recs[l]
\* the first export of a project of other parsers is taken as it is
Init == /\ l \in 1..Len(Recs) /\ n = 0
        /\ x = IF Recs[l].known THEN JStart(Recs[l].arts)
               ELSE [arts |-> <<>>, exports |-> <<[reqs |-> Recs[l].exports[1].reqs, errs |-> Recs[l].exports[1].errs]>>]
Todo == n < 2 * Len(Rec.exports) - 1
FromN == IF Rec.known THEN n ELSE n + 1
Export == /\ Todo /\ FromN % 2 = 0 /\ x' = JExport(x) /\ n' = n + 1 /\ UNCHANGED l
Import == /\ Todo /\ FromN % 2 = 1 /\ Len(x.exports) < Len(Rec.exports)
          /\ x' = JImport(x) /\ n' = n + 1 /\ UNCHANGED l
Finished == Len(x.exports) = Len(Rec.exports)

Content(r) == <<r.id, r.title, r.loc, r.covers, r.depends, r.tags, Range(r.attrs)>>
IdOrder(reqs) == \A i \in 1..(Len(reqs) - 1) : ~StrLess(reqs[i + 1].id, reqs[i].id)
Matches ==
  /\ \A i \in 1..Len(Rec.exports) :
       /\ Rec.exports[i].ok
       /\ MapSeq(Rec.exports[i].reqs, LAMBDA r : r.id) = MapSeq(x.exports[i].reqs, LAMBDA r : r.id)
       /\ SameBag(MapSeq(Rec.exports[i].reqs, Content), MapSeq(x.exports[i].reqs, Content))
       /\ IdOrder(Rec.exports[i].reqs)
       /\ SameBag(Rec.exports[i].errs, x.exports[i].errs)
  /\ SameBag(Rec.exports[1].errs, Rec.errs)
Check == /\ Finished /\ n >= 0
         /\ IF Matches THEN TRUE ELSE PrintT("@@" \o ToJson([n |-> l, exp |-> [exports |-> x.exports, errs |-> Rec.errs]]))
         /\ n' = 0 - 1 /\ UNCHANGED <<l, x>>
Next == (~Finished /\ (Export \/ Import)) \/ Check
Spec == Init /\ [][Next]_vars
StepsOf(r) == IF r.known THEN 2 * Len(r.exports) + 1 ELSE 2 * Len(r.exports)
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE StepsOf(Recs[k]) + Total(k - 1)
Accepted == TLCGet("distinct") = Total(Len(Recs))
=============================================================================
