----------------------------- MODULE TV_Report -----------------------------
(* Trace validation of the reports.  Each record holds the trace result of    *)
(* one project as JSON tells it, and the entries found in the reports that    *)
(* the same run has written.                                                  *)
EXTENDS Reports, Json

CONSTANTS TraceFile, Prop

Recs == ndJsonDeserialize(TraceFile)

VARIABLES l, w, v, d, seen     \* w: writer as intended;  v: with the known findings;  d: writer of the document
vars == <<l, w, v, d, seen>>

Rec == Recs[l]
Tr  == Rec.tr

Writes == Prop = "C10"
NoWork == [todo |-> <<>>, md |-> <<>>, gnu |-> <<>>]
Init == /\ l \in 1..Len(Recs) /\ seen = FALSE
        /\ w = IF Writes THEN WStart(Recs[l].tr) ELSE NoWork
        /\ v = IF Writes THEN WStart(Recs[l].tr) ELSE NoWork
        /\ d = IF Prop = "C23" THEN DStart(Recs[l].tr) ELSE [left |-> <<>>, doc |-> <<>>, ids |-> <<>>]

Write(sec) == /\ w.todo # <<>> /\ Head(w.todo).sec = sec
              /\ w' = WStep(w, Tr, FALSE, FALSE) /\ v' = WStep(v, Tr, TRUE, TRUE)
              /\ UNCHANGED <<l, d, seen>>
WriteInput     == Write("input")
WriteTracing   == Write("tracing")
WriteUncovered == Write("uncovered")
WriteDerived   == Write("derived")
WriteReq == d.left # <<>> /\ d' = DStep(d) /\ UNCHANGED <<l, w, v, seen>>

-----------------------------------------------------------------------------
Of(es, sec) == SelectSeq(es, LAMBDA e : e.sec = sec)
\* two versions of a text, one of which must be there: compare dup entries modulo the order
\* of their locations (C06 decides on the order)
SameMd(md) ==
  /\ \A sec \in {"input", "uncovered", "derived"} : SameBag(Of(Rec.md, sec), Of(md, sec))
  /\ SameSet(Of(Rec.md, "tracing"), Of(md, "tracing"))
  /\ \A i \in 1..Len(Rec.md) : Rec.md[i].sec \in {"input", "tracing", "uncovered", "derived"}
SameGnu == SameBag(Rec.gnu, w.gnu)

\* entries as intended, but with the order of locations as in KF1
Mixed == [i \in 1..Len(w.md) |-> IF w.md[i].sec \in {"input", "tracing"} THEN v.md[i] ELSE w.md[i]]

AsBlock(b) == [b EXCEPT !.up = {[rel |-> x.rel, links |-> Range(x.links)] : x \in Range(b.up)},
                        !.down = {[rel |-> x.rel, links |-> Range(x.links), uncovered |-> x.uncovered] : x \in Range(b.down)}]
SameBlocks(bs) == SameBag(MapSeq(Rec.blocks, AsBlock), bs)

\* the document has the texts of the writer, those of the same id in any order
SameDoc ==
  LET blocks == Rec.doc.blocks IN
  /\ Len(blocks) = Len(d.doc)
  /\ \A i \in 1..Len(blocks) : blocks[i] = d.doc[i] \/ \E j \in 1..Len(blocks) : d.ids[j] = d.ids[i] /\ blocks[i] = d.doc[j]
  /\ SameBag(blocks, d.doc)
  /\ SameBag(Rec.doc.errs, DocErrs(Tr, FALSE)) \/ SameBag(Rec.doc.errs, DocErrs(Tr, TRUE))

HeadLine(b) == IF FindFrom(b.head, "\n", 1) = 0 THEN b.head ELSE UpTo(b.head, FindFrom(b.head, "\n", 1) - 1)
Headings == {From(HeadLine(b), 5) : b \in Range(Rec.blocks)}
ShownLinks == UNION {LinksIn(e.text) : e \in Range(Rec.md)}
         \cup UNION {UNION {UNION {LinksIn(k[1]) : k \in Range(x.links)} : x \in Range(b.up) \cup Range(b.down)} : b \in Range(Rec.blocks)}
Lost == {x \in ShownLinks : ~(\E h \in Headings : Leads(x, h))
                       /\ ~(x.ok /\ \E h \in Headings : StartsWith(h, x.label \o ":") /\ ~PlainTitle(h))}

Matches ==
  /\ Tr.ok
  /\ CASE Prop = "C10" -> SameGnu /\ (SameMd(w.md) \/ SameMd(Mixed))
       [] Prop = "C11" -> SameBlocks(Blocks(Tr, FALSE))
       [] Prop = "C13" -> /\ SameBag(Rec.tags, TagLines(Tr))
                          /\ IsSorted(Rec.tags)
                          \* the header comes first, and says that the file is sorted
                          /\ LET h == Len(Rec.tagfile) - Len(Rec.tags) IN
                             /\ SubSeq(Rec.tagfile, h + 1, Len(Rec.tagfile)) = Rec.tags
                             /\ \E i \in 1..h : StartsWith(Rec.tagfile[i], "!_TAG_FILE_SORTED\t1\t")
                             /\ IsSorted(SubSeq(Rec.tagfile, 1, h))
       [] Prop = "C23" -> SameDoc
       [] Prop = "C24" -> Lost = {}
       [] OTHER -> FALSE
Known ==
  /\ Tr.ok
  /\ CASE Prop = "C10" -> SameGnu /\ (SameMd(v.md) \/ SameMd([i \in 1..Len(w.md) |-> IF w.md[i].sec \in {"input", "tracing"} THEN w.md[i] ELSE v.md[i]]))
       [] Prop = "C11" -> SameBlocks(Blocks(Tr, TRUE))
       \* the definition that is shown twice hides the other one, which links name
       [] Prop = "C24" -> \A x \in Lost : x.ok /\ FirstArt(Tr, x.label).id # LastArt(Tr, x.label).id
       [] OTHER -> FALSE

Check == /\ w.todo = <<>> /\ d.left = <<>> /\ ~seen
         /\ IF Matches THEN TRUE
            ELSE PrintT("@@" \o ToJson([n |-> l, known |-> IF Known THEN "KF3" ELSE "",
                   exp |-> CASE Prop = "C10" -> [md |-> w.md, gnu |-> w.gnu]
                             [] Prop = "C11" -> [blocks |-> Blocks(Tr, FALSE)]
                             [] Prop = "C23" -> [doc |-> d.doc, errs |-> DocErrs(Tr, FALSE)]
                             [] Prop = "C24" -> [lost |-> Lost, headings |-> Headings]
                             [] OTHER -> [tags |-> TagLines(Tr)]]))
         /\ seen' = TRUE /\ UNCHANGED <<l, w, v, d>>

Next == WriteInput \/ WriteTracing \/ WriteUncovered \/ WriteDerived \/ WriteReq \/ Check
Spec == Init /\ [][Next]_vars

Steps(r) == IF Writes THEN Len(Work(r.tr)) + 2 ELSE IF Prop = "C23" THEN Len(AllReqs(r.tr)) + 2 ELSE 2
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Steps(Recs[n]) + Total(n - 1)
Accepted == TLCGet("distinct") = Total(Len(Recs))
=============================================================================
