------------------------------ MODULE Reports ------------------------------
(* The reports that are written about a trace result (src/formatters).        *)
(*                                                                            *)
(* A trace result tr is [arts, rels, derived, errs] as the JSON output shows  *)
(* it.  A finding e in it is [k, loc, r1, r2, y, z, msg, lower] with          *)
(* requirement heads r1, r2 = [id, title, loc].                               *)
(*                                                                            *)
(* A report is written by a machine that takes the findings one by one, in    *)
(* the order of the sections, and appends one entry [sec, sub, text] each.    *)
EXTENDS Model

LocText(x) ==
  CASE x.k = "N" -> x.f
    [] x.k = "L" -> x.f \o ":" \o x.l
    [] x.k = "C" -> x.f \o ":" \o x.l \o ":" \o x.c
    [] OTHER     -> x.f \o ":" \o x.s
LocLink(x) ==
  CASE x.k = "N" -> "[" \o x.f \o "](../" \o x.f \o ")"
    [] x.k = "L" -> "[" \o LocText(x) \o "](../" \o x.f \o "?plain=1#L" \o x.l \o ")"
    [] x.k = "C" -> "[" \o LocText(x) \o "](../" \o x.f \o "?plain=1#L" \o x.l \o ")"
    [] OTHER     -> "[" \o x.f \o "](../" \o x.f \o "):" \o x.s

(* The anchor that a heading gets: small letters, blanks as dashes, without everything else    *)
(* that is neither word character nor dash.                                                    *)
LowerOf == [c \in Upper |-> Ch("abcdefghijklmnopqrstuvwxyz", Rank(c) - Rank("A") + 1)]
  @@ [c \in {Ch(UpperBeyond, i) : i \in 1..Len(UpperBeyond)} |->
        Ch(LowerBeyond, CHOOSE i \in 1..Len(UpperBeyond) : Ch(UpperBeyond, i) = c)]
AnchorCh(c) == IF c = " " THEN "-"
               ELSE IF c \in DOMAIN LowerOf THEN LowerOf[c]
               ELSE IF c \in WordChar \cup {"-"} THEN c ELSE ""
Anchor(s) == Concat([i \in 1..Len(s) |-> AnchorCh(Ch(s, i))])
Escaped(s) == Concat([i \in 1..Len(s) |-> IF Ch(s, i) \in {"\"", "\\"} THEN "\\" \o Ch(s, i) ELSE Ch(s, i)])
ReqLink(r) ==
  IF r.title = <<>> THEN "[" \o r.id \o "](#" \o Anchor(r.id) \o ")"
  ELSE "[" \o r.id \o "](#" \o Anchor(r.id \o "-" \o r.title[1]) \o " \"" \o Escaped(r.title[1]) \o "\")"

RelText(upper, lower) == upper \o " => [" \o Join(lower, ", ") \o "]"
TitleOr(t, other) == IF t = <<>> THEN other ELSE t[1]
Q(s) == "\"" \o s \o "\""

-----------------------------------------------------------------------------
(* One finding in the Markdown report.  sw: the locations of a duplicate are  *)
(* shown in the other order.                                                  *)
MdText(e, sw) ==
  CASE e.k = "Format" -> "*   Format Error: " \o e.msg \o "\n    in " \o LocLink(e.loc)
    [] e.k = "DupReq" -> "*   Duplicate Requirement: " \o e.r1.id
          \o "\n    first seen in " \o LocLink(IF sw THEN e.r2.loc ELSE e.r1.loc)
          \o "\n    then again in " \o LocLink(IF sw THEN e.r1.loc ELSE e.r2.loc)
    [] e.k = "DupAttr" -> "*   Duplicate Attribute: " \o e.y \o " when parsing " \o e.z \o "\n    " \o LocLink(e.loc)
    [] e.k = "Io" -> "*   IO Error: " \o e.msg \o "\n   " \o e.y
    [] e.k = "Config" -> "*   Config Error: " \o e.msg
    [] e.k = "ReqNoTitle" -> "*   Requirement " \o ReqLink(e.r1)
          \o " without title in artefact that requires referencing with title"
    [] e.k = "CoveredWrong" ->
          "*   Requirement covered with wrong title:\n    *   Upper Requirement " \o ReqLink(e.r1)
          \o "\n    *   Lower Requirement " \o ReqLink(e.r2)
          \o "\n    *   Title of Upper Requirement:\n        *    ````" \o TitleOr(e.r1.title, "")
          \o "````\n    *   Title used to cover it:\n        *    ````" \o e.z
          \o "````\n    *  At: " \o LocText(e.loc)
    [] e.k = "DependWrong" ->
          "*   Requirement depended on with wrong title:\n    *   Upper Requirement " \o ReqLink(e.r1)
          \o "\n    *   Lower Requirement " \o ReqLink(e.r2)
          \o "\n    *   Title of Lower Requirement:\n        *    ````" \o TitleOr(e.r2.title, "")
          \o "````\n    *   Title used to cover it:\n        *    ````" \o e.z
          \o "````\n    *  At: " \o LocText(e.loc)
    [] e.k = "DependUnknown" -> "*   " \o ReqLink(e.r1) \o " depends on unknown Requirement " \o e.y \o "\n    " \o LocLink(e.loc)
    [] e.k = "CoversUnknown" -> "*   " \o ReqLink(e.r1) \o " covers unknown Requirement " \o e.y \o "\n    " \o LocLink(e.loc)
    [] e.k = "RefNoTitle" -> "*   " \o ReqLink(e.r1) \o " covered without title\n    " \o LocText(e.loc)
    [] e.k = "Unused" -> "*   No requirement was traced along the relation " \o RelText(e.y, e.lower)
          \o ". (Configuration error?)"
    [] OTHER -> "?"

(* One finding in the report for editors.  Quoted texts stand for themselves, *)
(* without escapes; of problems of the configuration only the texts matter.   *)
GnuText(e) ==
  CASE e.k = "Format" -> LocText(e.loc) \o ": " \o e.msg
    [] e.k = "DupReq" -> LocText(e.r2.loc) \o ": Duplicate Requirement: " \o e.r1.id \o "\n"
          \o LocText(e.r1.loc) \o ": note: previously seen here"
    [] e.k = "DupAttr" -> LocText(e.loc) \o ": " \o e.z \o " has duplicate Attribute: " \o e.y
    [] e.k = "Io" -> e.y \o ": IO Error: " \o e.msg
    [] e.k = "Config" -> "CONFIG|" \o e.msg
    [] e.k = "Unused" -> "CONFIG|" \o Join(<<e.y>> \o e.lower, "|")
    [] e.k = "ReqNoTitle" -> LocText(e.r1.loc) \o ": requirement " \o e.r1.id
          \o " without title in artefact that requires referencing with title"
    [] e.k = "CoveredWrong" -> LocText(e.loc) \o ": " \o e.r1.id \o " covered with wrong title. Expected "
          \o Q(TitleOr(e.r1.title, "<no title>")) \o ", actual " \o Q(e.z) \o "\n" \o LocText(e.r1.loc) \o ": note: Defined here"
    [] e.k = "DependWrong" -> LocText(e.loc) \o ": " \o e.r2.id \o " depended with wrong title. Expected "
          \o Q(TitleOr(e.r2.title, "<no title>")) \o ", actual " \o Q(e.z) \o "\n" \o LocText(e.r2.loc) \o ": note: Defined here"
    [] e.k = "DependUnknown" -> LocText(e.loc) \o ": " \o e.r1.id \o " Depends on unknown requirement " \o e.y
    [] e.k = "CoversUnknown" -> LocText(e.loc) \o ": " \o e.r1.id \o " Covers unknown requirement " \o e.y
    [] e.k = "RefNoTitle" -> LocText(e.loc) \o ": should reference " \o e.r1.id \o " with title " \o Q(TitleOr(e.r1.title, "<no title>"))
    [] OTHER -> "?"

-----------------------------------------------------------------------------
NoArt == [id |-> "?", reqs |-> <<>>, errs |-> <<>>]
Pick1(s, S, other) == IF S = {} THEN other ELSE s[CHOOSE i \in S : TRUE]
TrArt(tr, id) == Pick1(tr.arts, {i \in 1..Len(tr.arts) : tr.arts[i].id = id}, NoArt)
TrReq(a, id)  == Pick1(a.reqs, {i \in 1..Len(a.reqs) : a.reqs[i].id = id}, Req("?" \o id, <<>>, NoLoc))
HasReq(a, id) == \E i \in 1..Len(a.reqs) : a.reqs[i].id = id
\* the last artefact that defines an id: its definition is shown by the Markdown report when
\* several artefacts define it (known finding KF3)
LastArt(tr, id) == LET S == {i \in 1..Len(tr.arts) : HasReq(tr.arts[i], id)}
                   IN Pick1(tr.arts, {i \in S : \A j \in S : j = i \/ StrLess(tr.arts[j].id, tr.arts[i].id)}, NoArt)
FirstArt(tr, id) == LET S == {i \in 1..Len(tr.arts) : HasReq(tr.arts[i], id)}
                    IN Pick1(tr.arts, {i \in S : \A j \in S : j = i \/ StrLess(tr.arts[i].id, tr.arts[j].id)}, NoArt)
Shown(tr, art, id, kf3) == TrReq(IF kf3 THEN LastArt(tr, id) ELSE TrArt(tr, art), id)

\* work items: everything that has to be reported, section by section
Item(sec, sub, e, art, id) == [sec |-> sec, sub |-> sub, e |-> e, art |-> art, id |-> id]
NoErr == [k |-> ""]
Work(tr) ==
     Flat(MapSeq(tr.arts, LAMBDA a : MapSeq(a.errs, LAMBDA e : Item("input", a.id, e, "", ""))))
  \o MapSeq(tr.errs, LAMBDA e : Item("tracing", "", e, "", ""))
  \o Flat(MapSeq(tr.rels, LAMBDA r : MapSeq(r.uncovered, LAMBDA id :
        Item("uncovered", RelText(r.upper, r.lower), NoErr, r.upper, id))))
  \o Flat(MapSeq(tr.derived, LAMBDA d : MapSeq(d.ids, LAMBDA id : Item("derived", d.art, NoErr, d.art, id))))

Entry(sec, sub, text) == [sec |-> sec, sub |-> sub, text |-> text]
MdEntry(tr, w, sw, kf3) ==
  IF w.sec \in {"input", "tracing"} THEN Entry(w.sec, w.sub, MdText(w.e, sw))
  ELSE Entry(w.sec, w.sub, "*   " \o ReqLink(Shown(tr, w.art, w.id, kf3)))
GnuEntry(tr, w) ==
  IF w.sec = "input" THEN Entry("input", "", GnuText(w.e))
  ELSE IF w.sec = "tracing" THEN Entry("tracing", "", GnuText(w.e))
  ELSE LET r == TrReq(TrArt(tr, w.art), w.id) IN
       Entry(w.sec, w.sub, LocText(r.loc) \o ": " \o r.id \o (IF w.sec = "uncovered" THEN " Uncovered" ELSE " Derived"))

\* the writer: todo shrinks by one item, both reports grow by one entry; a message of tracing
\* that the Markdown report has already is not repeated
WStart(tr) == [todo |-> Work(tr), md |-> <<>>, gnu |-> <<>>]
WStep(w, tr, sw, kf3) ==
  LET x == Head(w.todo) m == MdEntry(tr, x, sw, kf3) IN
  [todo |-> Tail(w.todo),
   md   |-> IF x.sec = "tracing" /\ m \in Range(w.md) THEN w.md ELSE Append(w.md, m),
   gnu  |-> Append(w.gnu, GnuEntry(tr, x))]

-----------------------------------------------------------------------------
(* The traceability matrix: one block per requirement of every artefact.      *)
Up(tr, a, id, kf3) ==
  LET rs == {i \in 1..Len(tr.rels) :
               \E b \in Range(tr.rels[i].lower) : IF kf3 THEN HasReq(TrArt(tr, b), id) ELSE b = a.id}
      owner == kf3 \/ FirstArt(tr, id).id = a.id
  IN {[rel |-> RelText(tr.rels[i].upper, tr.rels[i].lower),
       links |-> UNION {{<<ReqLink(Shown(tr, tr.rels[j].upper, c.upper, kf3)), LocLink(c.loc)>> :
                           c \in {x \in Range(tr.rels[j].covered) : owner /\ x.lower = id}}
                        : j \in {k \in rs : tr.rels[k].upper = tr.rels[i].upper /\ tr.rels[k].lower = tr.rels[i].lower}}]
      : i \in rs}
Down(tr, a, id, kf3) ==
  LET rs == {i \in 1..Len(tr.rels) : IF kf3 THEN HasReq(TrArt(tr, tr.rels[i].upper), id) ELSE tr.rels[i].upper = a.id}
  IN {[rel |-> RelText(tr.rels[i].upper, tr.rels[i].lower),
       links |-> UNION {{<<ReqLink(Shown(tr, FirstArt(tr, c.lower).id, c.lower, kf3)), LocLink(c.loc)>> :
                           c \in {x \in Range(tr.rels[j].covered) : x.upper = id}}
                        : j \in {k \in rs : tr.rels[k].upper = tr.rels[i].upper /\ tr.rels[k].lower = tr.rels[i].lower}}]
      : i \in rs}

\* attributes in the order of their names, the description first
AttrOrder(r) == SortStrings(MapSeq(SelectSeq(r.attrs, LAMBDA x : x[1] # "Description"), LAMBDA x : x[1]))
AttrVal(r, n) == r.attrs[CHOOSE i \in 1..Len(r.attrs) : r.attrs[i][1] = n][2]
HeadText(art, r) ==
  "### " \o r.id \o (IF r.title = <<>> THEN "" ELSE ": " \o r.title[1]) \o "\n\nOrigin: " \o art \o ", " \o LocLink(r.loc) \o "\n"
  \o (IF HasAttr(r, "Description") THEN "\n\n" \o AttrVal(r, "Description") \o "\n" ELSE "")
  \o Concat(MapSeq(AttrOrder(r), LAMBDA n : IF IsBlank(AttrVal(r, n)) THEN ""
                                             ELSE "\n" \o n \o ":\n" \o Trim(AttrVal(r, n)) \o "\n"))

Block(tr, a, id, kf3) ==
  LET src == IF kf3 THEN LastArt(tr, id) ELSE a
      r   == TrReq(src, id)
      up  == Up(tr, a, id, kf3)
      dn  == Down(tr, a, id, kf3)
  IN [art |-> a.id, head |-> HeadText(src.id, r),
      up |-> up, derived |-> \A u \in up : u.links = {},
      down |-> {[rel |-> x.rel, links |-> x.links, uncovered |-> x.links = {}] : x \in dn}]
Blocks(tr, kf3) == Flat(MapSeq(tr.arts, LAMBDA a : MapSeq(a.reqs, LAMBDA r : Block(tr, a, r.id, kf3))))

-----------------------------------------------------------------------------
(* Links of the report, as a reader of Markdown finds them: [label](#dest) or [label](#dest    *)
(* "title"), where a backslash stands before quotes and backslashes of the title.              *)
NoLink == [ok |-> FALSE, label |-> "", dest |-> "", title |-> <<>>]
RECURSIVE LastOpen(_, _)
LastOpen(s, i) == IF i < 1 THEN 0 ELSE IF Ch(s, i) = "[" THEN i ELSE LastOpen(s, i - 1)
RECURSIVE TitleEnd(_, _)
\* the closing quote of a title
TitleEnd(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = "\"" THEN i
                  ELSE IF Ch(s, i) = "\\" THEN TitleEnd(s, i + 2) ELSE TitleEnd(s, i + 1)
RECURSIVE Unescaped(_)
Unescaped(s) == IF s = "" THEN "" ELSE IF Ch(s, 1) = "\\" /\ Len(s) > 1 THEN Ch(s, 2) \o Unescaped(From(s, 3))
                ELSE Ch(s, 1) \o Unescaped(From(s, 2))
DestEnd(s, i) == CHOOSE j \in i..(Len(s) + 1) : /\ (j = Len(s) + 1 \/ Ch(s, j) \in {" ", ")"})
                                               /\ \A k \in i..(j - 1) : Ch(s, k) \notin {" ", ")"}
RECURSIVE LinksFrom(_, _)
LinksFrom(s, i) ==
  LET m == FindFrom(s, "](#", i) IN
  IF m = 0 THEN {}
  ELSE LET label == SubSeq(s, LastOpen(s, m) + 1, m - 1)
           e     == DestEnd(s, m + 3)
           dest  == SubSeq(s, m + 3, e - 1)
       IN IF e > Len(s) THEN {NoLink}
          ELSE IF Ch(s, e) = ")" THEN {[ok |-> TRUE, label |-> label, dest |-> dest, title |-> <<>>]} \cup LinksFrom(s, e)
          ELSE LET q == IF e < Len(s) /\ Ch(s, e + 1) = "\"" THEN TitleEnd(s, e + 2) ELSE 0 IN
               IF q = 0 \/ q >= Len(s) \/ Ch(s, q + 1) # ")" THEN {NoLink}
               ELSE {[ok |-> TRUE, label |-> label, dest |-> dest, title |-> <<Unescaped(SubSeq(s, e + 2, q - 1))>>]}
                    \cup LinksFrom(s, q)
LinksIn(s) == LinksFrom(s, 1)

\* the link leads to the heading and says what it does
Leads(x, heading) ==
  /\ x.ok /\ x.dest = Anchor(Trim(heading))
  /\ heading = (IF x.title = <<>> THEN x.label ELSE x.label \o ": " \o x.title[1])
\* Markdown drops empty titles and blanks around titles: no link is expected to lead there
PlainTitle(heading) == Trim(heading) = heading /\ ~EndsWith(heading, ":") /\ ~Contains(heading, ":  ")

-----------------------------------------------------------------------------
(* The document about all requirements                                        *)
RefLines(name, refs) ==
  IF refs = <<>> THEN ""
  ELSE "\n" \o name \o ":\n"
       \o Concat(MapSeq(refs, LAMBDA x : "*   " \o x.id \o (IF x.title = <<>> THEN "" ELSE ": " \o x.title[1]) \o "\n"))
DocText(r) ==
  "### " \o r.id \o ": " \o TitleOr(r.title, "") \o "\n\nOrigin: " \o LocLink(r.loc) \o "\n"
  \o (IF HasAttr(r, "Description") THEN "\n\n" \o AttrVal(r, "Description") \o "\n" ELSE "")
  \o RefLines("Covers", r.covers) \o RefLines("Depends", r.depends)
  \o Concat(MapSeq(AttrOrder(r), LAMBDA n : IF IsBlank(AttrVal(r, n)) THEN ""
                                             ELSE "\n" \o n \o ":\n" \o Trim(AttrVal(r, n)) \o "\n"))
AllReqs(tr) == Flat(MapSeq(tr.arts, LAMBDA a : a.reqs))
DocErrs(tr, sw) == Flat(MapSeq(tr.arts, LAMBDA a : MapSeq(a.errs, LAMBDA e : Entry("input", a.id, MdText(e, sw)))))

\* the writer of the document: one requirement after the other, the smallest id first
DStart(tr) == [left |-> AllReqs(tr), doc |-> <<>>, ids |-> <<>>]
Smallest(rs) == CHOOSE i \in 1..Len(rs) : \A j \in 1..Len(rs) : StrLeq(rs[i].id, rs[j].id) /\ (rs[i].id = rs[j].id => i <= j)
DStep(d) == LET i == Smallest(d.left) IN
  [left |-> SubSeq(d.left, 1, i - 1) \o SubSeq(d.left, i + 1, Len(d.left)),
   doc |-> Append(d.doc, DocText(d.left[i])), ids |-> Append(d.ids, d.left[i].id)]

-----------------------------------------------------------------------------
(* The tags file                                                              *)
Located(tr) == Flat(MapSeq(tr.arts, LAMBDA a : SelectSeq(a.reqs, LAMBDA r : r.loc.k \in {"L", "C"})))
TagLine(r) == r.id \o "\t" \o r.loc.f \o "\t" \o r.loc.l \o ";\"\tr"
TagLines(tr) == MapSeq(Located(tr), TagLine)
IsSorted(lines) == \A i \in 1..(Len(lines) - 1) : ~StrLess(lines[i + 1], lines[i])
=============================================================================
