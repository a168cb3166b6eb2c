------------------------------ MODULE TV_Trace ------------------------------
(* Trace validation of tracing.  Each record is one project that the real     *)
(* program has traced: its artefacts and relations and the trace result.      *)
(* The record is replayed through the actions of Tracer and the final state   *)
(* is compared with the result.  Prop selects the property whose view of the  *)
(* state is compared.                                                         *)
EXTENDS TraceView, Json

CONSTANTS TraceFile, Prop

Recs == ndJsonDeserialize(TraceFile)

VARIABLES l, t, seen
vars == <<l, t, seen>>

Rec == Recs[l]
P   == Rec.proj
Obs == Rec.obs

Init == l \in 1..Len(Recs) /\ t = TStart(Recs[l].proj) /\ seen = FALSE

Step(name, new) == TPhase(t, P) = name /\ t' = new /\ UNCHANGED <<l, seen>>
DoAddArtefact == Step("AddArtefact", AddArtefact(t, P))
DoTraceUpper  == Step("TraceUpper", TraceUpper(t, P))
DoEndRelation == Step("EndRelation", EndRelation(t, P))
DoValidate    == Step("Validate", Validate(t))

-----------------------------------------------------------------------------
(* The duplicate entries of the two reports, as extracted from their text:    *)
(* Rec.md and Rec.gnu hold [where, id, first, again] with locations as text.  *)
LocText(x) ==
  CASE x.k = "N" -> x.f
    [] x.k = "L" -> x.f \o ":" \o x.l
    [] x.k = "C" -> x.f \o ":" \o x.l \o ":" \o x.c
    [] OTHER     -> x.f \o ":" \o x.s
DupEntry(where, e, swap) ==
  LET a == LocText(e.loc) b == LocText(e.loc2) IN
  [where |-> where, id |-> e.x, first |-> IF swap THEN b ELSE a, again |-> IF swap THEN a ELSE b]
DupEntries(named, swap) ==
  Flat(MapSeq(P.arts, LAMBDA a : MapSeq(Pick(ArtErrs(a), {"DupReq"}),
          LAMBDA e : DupEntry(IF named THEN "in " \o a.id ELSE "in", e, swap))))
  \o MapSeq(Pick(t.errs, {"DupReq"}), LAMBDA e : DupEntry("tracing", e, swap))

GnuDups == SameBag(Rec.gnu, DupEntries(FALSE, FALSE))
\* identical messages of tracing are merged in the Markdown report
MdDups(swap) == /\ SameSet(Rec.md, DupEntries(TRUE, swap))
                /\ SameBag(SelectSeq(Rec.md, LAMBDA e : e.where # "tracing"),
                           SelectSeq(DupEntries(TRUE, swap), LAMBDA e : e.where # "tracing"))

Matches ==
  /\ Obs.ok
  /\ CASE Prop = "C01" -> SameCovered(Obs, t)
       [] Prop = "C02" -> SameUncovered(Obs, t)
       [] Prop = "C03" -> SameDerived(Obs, P, t)
       [] Prop = "C04" -> SameUnknown(Obs, t)
       [] Prop = "C05" -> SameTitles(Obs, P, t)
       [] Prop = "C06" -> SameDuplicates(Obs, P, t) /\ GnuDups
       [] OTHER -> SameTrace(Obs, P, t)

Report(known) == PrintT("@@" \o ToJson([n |-> l, known |-> known,
                        exp |-> [rels |-> t.rels, derived |-> t.derived, errs |-> t.errs]]))
Check == /\ t.done /\ ~seen
         /\ IF ~Matches THEN Report("")
            ELSE IF Prop = "C06" /\ ~MdDups(FALSE)
                 THEN Report(IF MdDups(TRUE) THEN "KF1" ELSE "")
                 ELSE TRUE
         /\ seen' = TRUE /\ UNCHANGED <<l, t>>

Next == DoAddArtefact \/ DoTraceUpper \/ DoEndRelation \/ DoValidate \/ Check
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE TSteps(Recs[n].proj) + 2 + Total(n - 1)
Accepted == TLCGet("distinct") = Total(Len(Recs))
=============================================================================
