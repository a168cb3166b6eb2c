------------------------------- MODULE TV_Md -------------------------------
(* Trace validation of Markdown reading.  Each record is one file that the    *)
(* real program has read: its lines and what the program reported about it.   *)
(* The record is replayed line by line through the actions of MdParser and    *)
(* the final state is compared with the report.  Prop selects the property    *)
(* whose view of the state is compared.                                       *)
EXTENDS MdParser, MdDecl, Json

CONSTANTS TraceFile, Prop

Recs == ndJsonDeserialize(TraceFile)

VARIABLES l, i, m
vars == <<l, i, m>>

Rec == Recs[l]
\* number of lines after which the file cannot be decoded any more, or -1
Fails(r) == r.fail >= 0
Lines(r) == r.lines

Init == /\ l \in 1..Len(Recs) /\ i = 1 /\ m = MdStart(Recs[l].file)

Read(k) == /\ ~m.done /\ i <= Len(Lines(Rec)) /\ (Fails(Rec) => i <= Rec.fail)
           /\ LineKind(Lines(Rec)[i]) = k
           /\ m' = MdStep(m, Lines(Rec)[i]) /\ i' = i + 1 /\ UNCHANGED l
ReadReq     == Read("Req")
ReadHeading == Read("Heading")
ReadEmpty   == Read("Empty")
ReadLine    == Read("Line")
Eof  == /\ ~m.done /\ ~Fails(Rec) /\ i = Len(Lines(Rec)) + 1
        /\ m' = OnEof(m) /\ i' = i + 1 /\ UNCHANGED l
Fail == /\ ~m.done /\ Fails(Rec) /\ i = Rec.fail + 1
        /\ m' = OnReadError(m) /\ i' = i + 1 /\ UNCHANGED l

-----------------------------------------------------------------------------
Head3(r) == <<r.id, r.title, r.loc>>
Content(r) == AsDecl(r)

\* the requirement of the last section is dropped by the reader when the section is
\* malformed (it is still under construction in the end); it is not compared
Optional == {m.cur[x].loc : x \in 1..Len(m.cur)}
Must(reqs) == SelectSeq(reqs, LAMBDA r : r.loc \notin Optional)

\* requirements of both, paired by location
Both(View(_)) ==
  \A x \in 1..Len(m.reqs) : \A y \in 1..Len(Rec.obs.reqs) :
     (m.reqs[x].loc = Rec.obs.reqs[y].loc /\ m.reqs[x].id = Rec.obs.reqs[y].id)
       => View(m.reqs[x]) = View(Rec.obs.reqs[y])

Matches ==
  /\ Rec.obs.ok
  /\ CASE Prop = "C14" -> SameBag(MapSeq(Must(m.reqs), Head3), MapSeq(Must(Rec.obs.reqs), Head3))
       [] Prop = "C15" -> Both(LAMBDA r : <<r.covers, r.depends>>)
       [] Prop = "C16" -> Both(LAMBDA r : Range(r.attrs))
       [] Prop = "C17" -> /\ SameBag(m.errs, Rec.obs.errs)
                          /\ m.errs # <<>> =>
                               SameBag(MapSeq(Must(m.reqs), Content),
                                       MapSeq(Must(Rec.obs.reqs), Content))
       [] OTHER -> /\ SameBag(m.errs, Rec.obs.errs)
                   /\ SameBag(MapSeq(m.reqs, Content), MapSeq(Rec.obs.reqs, Content))

Check == /\ m.done /\ i > 0
         /\ IF Matches THEN TRUE ELSE PrintT("@@" \o ToJson([n |-> l, exp |-> [reqs |-> m.reqs, errs |-> m.errs]]))
         /\ i' = 0 /\ UNCHANGED <<l, m>>

Next == ReadReq \/ ReadHeading \/ ReadEmpty \/ ReadLine \/ Eof \/ Fail \/ Check
Spec == Init /\ [][Next]_vars

\* every record was replayed to its end
StepsOf(r) == (IF Fails(r) THEN r.fail ELSE Len(Lines(r))) + 3
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE StepsOf(Recs[n]) + Total(n - 1)
Accepted == TLCGet("distinct") = Total(Len(Recs))
=============================================================================
