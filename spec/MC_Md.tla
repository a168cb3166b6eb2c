------------------------------- MODULE MC_Md -------------------------------
(* All documents of at most MaxLines lines over the line forms of Alphabet:   *)
(* the reader of MdParser gives each of them the meaning of MdDecl.           *)
EXTENDS MdParser, MdDecl

CONSTANTS MaxLines, Alphabet

\* one line of each form the reader distinguishes
AlphaCore == {"# AA: Ta\n", "## plain\n", "\n", "text\n", "Covers: CC, DD\n", "Depends:\n",
              "* EE: Te\n", "Note: first\n", "Description:\n"}
AlphaWide == AlphaCore \cup {"## BB:Tb\n", " \r\n", "* FF\n", "Covers:\n", "- GG-H\n", "Note:\n"}

VARIABLES m, doc
vars == <<m, doc>>

File == "f.md"

Init == m = MdStart(File) /\ doc = <<>>

Read(k, line) == /\ ~m.done /\ Len(doc) < MaxLines /\ LineKind(line) = k
                 /\ doc' = Append(doc, line) /\ m' = MdStep(m, line)
ReadReq     == \E line \in Alphabet : Read("Req", line)
ReadHeading == \E line \in Alphabet : Read("Heading", line)
ReadEmpty   == \E line \in Alphabet : Read("Empty", line)
ReadLine    == \E line \in Alphabet : Read("Line", line)
Eof         == ~m.done /\ m' = OnEof(m) /\ UNCHANGED doc
Fail        == ~m.done /\ m' = OnReadError(m) /\ UNCHANGED doc

Next == ReadReq \/ ReadHeading \/ ReadEmpty \/ ReadLine \/ Eof \/ Fail
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Complete == m.done /\ ~\E i \in 1..Len(m.errs) : m.errs[i].k = "Io"
Failed   == m.done /\ ~Complete

Found == {AsDecl(m.reqs[i]) : i \in 1..Len(m.reqs)}

C14_Headings == Complete =>
  LET must == {h \in ReqHeadings(doc) : ~MayBeMissing(doc, h)} IN
  /\ {LocLine(File, h) : h \in must} \subseteq {r.loc : r \in Found}
  /\ {r.loc : r \in Found} \subseteq {LocLine(File, h) : h \in ReqHeadings(doc)}
  /\ Len(m.reqs) = Cardinality(Found)
  /\ \A h \in ReqHeadings(doc) : \A r \in Found : r.loc = LocLine(File, h) =>
        r.id = ReqLine(doc[h]).id /\ r.title = ReqLine(doc[h]).title

C15_References == Complete =>
  \A h \in ReqHeadings(doc) : \A r \in Found : r.loc = LocLine(File, h) =>
        /\ r.covers  = RefsOf(doc, File, h, "Covers")
        /\ r.depends = RefsOf(doc, File, h, "Depends")

C16_Text == Complete =>
  \A h \in ReqHeadings(doc) : \A r \in Found : r.loc = LocLine(File, h) =>
        r.attrs = {<<n, AttrValue(doc, h, n)>> : n \in AttrNames(doc, h)}

C17_Problems == Complete =>
  /\ Range(m.errs) = ExpectedErrs(doc, File)
  /\ Len(m.errs) = Cardinality(Range(m.errs))

\* after a read error the requirements found before are still there
C20_Prefix == Failed =>
  \A h \in ReqHeadings(doc) : (\E i \in Headings(doc) : i > h) =>
      ReqOf(doc, File, h) \in Found

\* what is found is never taken back
GrowOnly == [][ /\ SubSeq(m'.reqs, 1, Len(m.reqs)) = m.reqs
                /\ SubSeq(m'.errs, 1, Len(m.errs)) = m.errs ]_vars
=============================================================================
