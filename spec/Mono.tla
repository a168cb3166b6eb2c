-------------------------------- MODULE Mono --------------------------------
(* Reading of a file with a single requirement (src/parsers/monoreq.rs).      *)
(* State m: [title, deps, n, file, done, errs].                               *)
EXTENDS Model

\* the line without its ending
Bare(line) == LET s == NoNl(line) IN IF line # s /\ EndsWith(s, "\r") THEN UpTo(s, Len(s) - 1) ELSE s

\* from the first to the last word character, "" if there is none
RECURSIVE FirstWord(_, _)
FirstWord(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) \in WordChar THEN i ELSE FirstWord(s, i + 1)
RECURSIVE LastWord(_, _)
LastWord(s, i) == IF i < 1 THEN 0 ELSE IF Ch(s, i) \in WordChar THEN i ELSE LastWord(s, i - 1)
Words(s) == LET a == FirstWord(s, 1) IN IF a = 0 THEN "" ELSE SubSeq(s, a, LastWord(s, Len(s)))

\* the first arrow that is followed by nothing but an id, or an id and its title
RECURSIVE ArrowFrom(_, _)
ArrowFrom(s, i) ==
  LET p == FindFrom(s, "=>", i) IN
  IF p = 0 THEN NoIdTitle
  ELSE LET r == IdTitle(s, SkipIn(s, p + 2, WS)) IN IF r.ok THEN r ELSE ArrowFrom(s, p + 1)
Arrow(s) == ArrowFrom(s, 1)

\* the stem of a file name: without the last extension
RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i < 1 THEN 0 ELSE IF Ch(s, i) = "." THEN i ELSE LastDot(s, i - 1)
Stem(name) == LET p == LastDot(name, Len(name)) IN IF p <= 1 THEN name ELSE UpTo(name, p - 1)

MStart(file) == [title |-> <<>>, deps |-> <<>>, n |-> 0, file |-> file, done |-> FALSE, errs |-> <<>>]
OnTitle(m, line) == [m EXCEPT !.n = @ + 1, !.title = <<Words(Bare(line))>>]
OnArrow(m, line) == LET r == Arrow(Bare(line)) IN
  [m EXCEPT !.n = @ + 1, !.deps = Append(@, Ref(r.id, r.title, LocLine(m.file, m.n + 1)))]
OnOther(m, line) == [m EXCEPT !.n = @ + 1]
MKind(m, line) == IF m.title = <<>> THEN (IF Words(Bare(line)) # "" THEN "Title" ELSE "Other")
                  ELSE IF Arrow(Bare(line)).ok THEN "Arrow" ELSE "Other"
MStep(m, line) == CASE MKind(m, line) = "Title" -> OnTitle(m, line)
                    [] MKind(m, line) = "Arrow" -> OnArrow(m, line)
                    [] OTHER -> OnOther(m, line)
\* the file cannot be decoded: the rest is not read
MBroken(m) == [m EXCEPT !.done = TRUE, !.errs = Append(@, ErrIo(m.file))]
MEnd(m) == [m EXCEPT !.done = TRUE]
\* there is always a requirement
MReq(m, name) == [Req(Stem(name), m.title, LocFile(m.file)) EXCEPT !.depends = m.deps]

-----------------------------------------------------------------------------
(* The same without reading line by line                                      *)
TitleLine(doc) == LET S == {i \in 1..Len(doc) : Words(Bare(doc[i])) # ""}
                  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
DeclTitle(doc) == IF TitleLine(doc) = 0 THEN <<>> ELSE <<Words(Bare(doc[TitleLine(doc)]))>>
\* position k of s starts an arrow with a complete reference behind it
ArrowAt(s, k) == /\ k + 1 <= Len(s) /\ SubSeq(s, k, k + 1) = "=>"
                 /\ IdTitle(s, SkipIn(s, k + 2, WS)).ok
Arrows(s) == {k \in 1..Len(s) : ArrowAt(s, k)}
DeclRefs(doc, file) ==
  {LET s == Bare(doc[i]) k == CHOOSE k \in Arrows(s) : \A j \in Arrows(s) : k <= j
       r == IdTitle(s, SkipIn(s, k + 2, WS))
   IN Ref(r.id, r.title, LocLine(file, i))
   : i \in {j \in 1..Len(doc) : TitleLine(doc) # 0 /\ j > TitleLine(doc) /\ Arrows(Bare(doc[j])) # {}}}
=============================================================================
