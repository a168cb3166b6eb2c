------------------------------ MODULE MdParser ------------------------------
(* The Markdown reader as the state machine of src/parsers/markdown.rs: it    *)
(* consumes one line per step.  m is the complete state of the reader:        *)
(*   st    what it is looking for                                             *)
(*   attr  name of the attribute under construction                           *)
(*   txt   text under construction (description or attribute)                 *)
(*   refs  reference list under construction                                  *)
(*   cur   requirement under construction (0 or 1)                            *)
(*   reqs, errs   results so far;  ln  number of lines read                   *)
EXTENDS MdLex

MdStart(file) ==
  [st |-> "LookForReq", attr |-> "", txt |-> "", refs |-> <<>>, cur |-> <<>>,
   reqs |-> <<>>, errs |-> <<>>, ln |-> 0, file |-> file, done |-> FALSE]

Here(m) == LocLine(m.file, m.ln)

InText == {"CollectDesc", "CollectDescNl"}

\* finish the text or list under construction
Commit(m) ==
  CASE m.st \in InText ->
         [m EXCEPT !.cur = <<SetAttr(m.cur[1], "Description", m.txt)>>, !.txt = ""]
    [] m.st = "CollectTextAttr" ->
         [m EXCEPT !.cur = <<SetAttr(m.cur[1], m.attr, m.txt)>>, !.txt = "", !.attr = ""]
    [] m.st = "CollectRefLink" /\ m.attr = "Covers" ->
         [m EXCEPT !.cur = <<[@[1] EXCEPT !.covers = m.refs]>>, !.refs = <<>>, !.attr = ""]
    [] m.st = "CollectRefLink" /\ m.attr = "Depends" ->
         [m EXCEPT !.cur = <<[@[1] EXCEPT !.depends = m.refs]>>, !.refs = <<>>, !.attr = ""]
    [] OTHER -> m

CommitReq(m) == [m EXCEPT !.reqs = @ \o m.cur, !.cur = <<>>]

AddErr(m, e) == [m EXCEPT !.errs = Append(@, e)]

StartAttr(m, line) ==
  LET a == AttrLine(line)
      r == m.cur[1]
      repeated == CASE a.name = "Covers"  -> r.covers # <<>>
                    [] a.name = "Depends" -> r.depends # <<>>
                    [] OTHER              -> HasAttr(r, a.name)
      m1 == IF repeated THEN AddErr(m, ErrDupAttr(Here(m), a.name, r.id)) ELSE m
  IN IF IsRefAttr(a.name)
     THEN [m1 EXCEPT !.st = "CollectRefLink", !.attr = a.name,
                     !.refs = MapSeq(ShortList(a.value), LAMBDA id : Ref(id, <<>>, Here(m)))]
     ELSE [m1 EXCEPT !.st = "CollectTextAttr", !.attr = a.name, !.txt = a.value]

\* the first line of a text attribute has no terminator yet
EndFirst(t) == IF t # "" /\ ~EndsWith(t, Nl) THEN t \o Nl ELSE t

-----------------------------------------------------------------------------
(* One step per event *)
OnReq(m, line) ==
  LET h == ReqLine(line) m1 == CommitReq(Commit(m)) IN
  [m1 EXCEPT !.st = "LookForDesc", !.cur = <<Req(h.id, h.title, Here(m))>>]

OnHeading(m) == [CommitReq(Commit(m)) EXCEPT !.st = "LookForReq"]

OnEof(m) ==
  LET m1 == IF m.st = "LookForReq" THEN m ELSE CommitReq(Commit(m)) IN
  [m1 EXCEPT !.st = "LookForReq", !.done = TRUE]

OnEmpty(m) ==
  CASE m.st \in InText -> [m EXCEPT !.st = "CollectDescNl", !.txt = @ \o Nl]
    [] m.st = "CollectTextAttr" -> [m EXCEPT !.txt = EndFirst(@) \o Nl]
    [] m.st = "CollectRefLink" -> [Commit(m) EXCEPT !.st = "LookForAttr"]
    [] OTHER -> m

OnLine(m, line) ==
  CASE m.st = "LookForReq" -> m
    [] m.st = "LookForDesc" ->
         IF IsAttrLine(line) THEN StartAttr(m, line)
         ELSE [m EXCEPT !.st = "CollectDesc", !.txt = line]
    [] m.st = "CollectDesc" -> [m EXCEPT !.txt = @ \o line]
    [] m.st = "CollectDescNl" ->
         IF IsAttrLine(line) THEN StartAttr(Commit(m), line)
         ELSE [m EXCEPT !.st = "CollectDesc", !.txt = @ \o line]
    [] m.st = "LookForAttr" ->
         IF IsAttrLine(line) THEN StartAttr(m, line)
         ELSE [AddErr(m, ErrFormat(Here(m))) EXCEPT !.st = "LookForReq"]
    [] m.st = "CollectTextAttr" ->
         IF IsAttrLine(line) THEN StartAttr(Commit(m), line)
         ELSE [m EXCEPT !.txt = EndFirst(@) \o line]
    [] m.st = "CollectRefLink" ->
         LET b == BulletLine(line) IN
         IF b.ok THEN [m EXCEPT !.refs = Append(@, Ref(b.id, b.title, Here(m)))]
         ELSE [AddErr(Commit(m), ErrFormat(Here(m))) EXCEPT !.st = "LookForReq"]

\* the file cannot be read any further
OnReadError(m) == [AddErr(m, ErrIo(m.file)) EXCEPT !.done = TRUE]

MdStep(m, line) ==
  LET n == [m EXCEPT !.ln = @ + 1] k == LineKind(line) IN
  CASE k = "Req" -> OnReq(n, line)
    [] k = "Heading" -> OnHeading(n)
    [] k = "Empty" -> OnEmpty(n)
    [] OTHER -> OnLine(n, line)

RECURSIVE MdRun(_, _, _)
MdRun(m, lines, i) == IF i > Len(lines) THEN OnEof(m) ELSE MdRun(MdStep(m, lines[i]), lines, i + 1)
\* result of reading a complete file
MdParse(file, lines) == LET m == MdRun(MdStart(file), lines, 1) IN [reqs |-> m.reqs, errs |-> m.errs]
=============================================================================
