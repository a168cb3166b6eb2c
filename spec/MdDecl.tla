------------------------------- MODULE MdDecl -------------------------------
(* What a Markdown document means, without reference to how it is read:       *)
(* a document is a list of sections, a section that starts with a requirement *)
(* heading is a requirement, and the body of a section is a description       *)
(* followed by attribute paragraphs.  Positions are line numbers of the doc.  *)
EXTENDS MdLex

Headings(doc) == {i \in 1..Len(doc) : ~IsBlank(doc[i]) /\ IsHeading(doc[i])}
ReqHeadings(doc) == {i \in Headings(doc) : IsReqLine(doc[i])}

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
FirstOr(S, d) == IF S = {} THEN d ELSE MinOf(S)
LastOr(S, d) == IF S = {} THEN d ELSE MaxOf(S)

\* last line of the section that starts at h
SecEnd(doc, h) == FirstOr({i \in Headings(doc) : i > h}, Len(doc) + 1) - 1

Text(doc, i) == IF IsBlank(doc[i]) THEN Nl ELSE doc[i]
RECURSIVE TextOf(_, _, _)
TextOf(doc, i, j) == IF i > j THEN "" ELSE Text(doc, i) \o TextOf(doc, i + 1, j)

\* first line of the section's body that is not blank
BodyStart(doc, h) == FirstOr({i \in (h+1)..SecEnd(doc, h) : ~IsBlank(doc[i])}, SecEnd(doc, h) + 1)

\* the first attribute: at the start of the body, or behind a blank line
FirstAttr(doc, h) ==
  FirstOr({i \in BodyStart(doc, h)..SecEnd(doc, h) :
             IsAttrLine(doc[i]) /\ (i = BodyStart(doc, h) \/ IsBlank(doc[i - 1]))},
          SecEnd(doc, h) + 1)

HasDescription(doc, h) == BodyStart(doc, h) < FirstAttr(doc, h)
DescriptionText(doc, h) == TextOf(doc, BodyStart(doc, h), FirstAttr(doc, h) - 1)

(* Attribute paragraphs.  AttrAt(a) is the paragraph that starts at line a:   *)
(* [last: its last line, bad: line at which it is malformed or 0, next: line   *)
(* of the next paragraph or 0].                                                *)
AttrPara(doc, h, a) ==
  LET e == SecEnd(doc, h)
      name == AttrLine(doc[a]).name
  IN IF IsRefAttr(name)
     THEN LET stop == FirstOr({i \in (a+1)..e : ~IsBulletLine(doc[i])}, e + 1) IN
          IF stop > e THEN [last |-> e, bad |-> 0, next |-> 0]
          ELSE IF ~IsBlank(doc[stop]) THEN [last |-> stop - 1, bad |-> stop, next |-> 0]
          ELSE LET n == FirstOr({i \in stop..e : ~IsBlank(doc[i])}, e + 1) IN
               IF n > e THEN [last |-> stop - 1, bad |-> 0, next |-> 0]
               ELSE IF IsAttrLine(doc[n]) THEN [last |-> stop - 1, bad |-> 0, next |-> n]
               ELSE [last |-> stop - 1, bad |-> n, next |-> 0]
     ELSE LET n == FirstOr({i \in (a+1)..e : IsAttrLine(doc[i])}, 0) IN
          [last |-> IF n = 0 THEN e ELSE n - 1, bad |-> 0, next |-> n]

RECURSIVE ParasFrom(_, _, _)
ParasFrom(doc, h, a) ==
  IF a = 0 \/ a > SecEnd(doc, h) THEN <<>>
  ELSE LET p == AttrPara(doc, h, a) IN
       <<[a |-> a, last |-> p.last, bad |-> p.bad]>> \o ParasFrom(doc, h, p.next)
Paras(doc, h) == ParasFrom(doc, h, FirstAttr(doc, h))

Name(doc, p) == AttrLine(doc[p.a]).name

\* references of one paragraph
ParaRefs(doc, file, p) ==
  MapSeq(ShortList(AttrLine(doc[p.a]).value), LAMBDA id : Ref(id, <<>>, LocLine(file, p.a)))
  \o [i \in 1..(p.last - p.a) |->
        LET b == BulletLine(doc[p.a + i]) IN Ref(b.id, b.title, LocLine(file, p.a + i))]

\* the references of a requirement are those of the last paragraph of the name
RefsOf(doc, file, h, name) ==
  LET ps == Paras(doc, h)
      mine == {i \in 1..Len(ps) : Name(doc, ps[i]) = name}
  IN IF mine = {} THEN <<>> ELSE ParaRefs(doc, file, ps[MaxOf(mine)])

\* value of one text attribute paragraph
ParaText(doc, p) ==
  LET v == AttrLine(doc[p.a]).value IN
  IF p.last = p.a THEN v ELSE (IF v = "" THEN "" ELSE v \o Nl) \o TextOf(doc, p.a + 1, p.last)

\* names of the text attributes of a requirement, and their values
AttrNames(doc, h) ==
  (IF HasDescription(doc, h) THEN {"Description"} ELSE {})
  \cup {Name(doc, Paras(doc, h)[i]) : i \in {j \in 1..Len(Paras(doc, h)) :
                                       ~IsRefAttr(Name(doc, Paras(doc, h)[j]))}}
AttrValue(doc, h, n) ==
  LET ps == Paras(doc, h)
      mine == {i \in 1..Len(ps) : Name(doc, ps[i]) = n}
  IN IF mine = {} THEN DescriptionText(doc, h) ELSE ParaText(doc, ps[MaxOf(mine)])

\* line of a section at which it is malformed, 0 if it is well-formed
BadLine(doc, h) ==
  LET ps == Paras(doc, h) IN IF ps = <<>> THEN 0 ELSE ps[Len(ps)].bad

\* lines at which an attribute is repeated; an empty reference list does not count
Repeats(doc, file, h) ==
  LET ps == Paras(doc, h)
      Before(i) == {j \in 1..(i-1) : Name(doc, ps[j]) = Name(doc, ps[i])}
      Repeated(i) ==
        IF IsRefAttr(Name(doc, ps[i]))
        THEN Before(i) # {} /\ ParaRefs(doc, file, ps[MaxOf(Before(i))]) # <<>>
        ELSE Before(i) # {} \/ (Name(doc, ps[i]) = "Description" /\ HasDescription(doc, h))
  IN {ps[i].a : i \in {j \in 1..Len(ps) : Repeated(j)}}

-----------------------------------------------------------------------------
(* The last section of a file may be dropped when it is malformed.            *)
MayBeMissing(doc, h) == SecEnd(doc, h) = Len(doc) /\ BadLine(doc, h) # 0

ExpectedErrs(doc, file) ==
  UNION {  (IF BadLine(doc, h) = 0 THEN {} ELSE {ErrFormat(LocLine(file, BadLine(doc, h)))})
           \cup {ErrDupAttr(LocLine(file, a), AttrLine(doc[a]).name, ReqLine(doc[h]).id)
                   : a \in Repeats(doc, file, h)}
        : h \in ReqHeadings(doc)}

ReqOf(doc, file, h) ==
  [id |-> ReqLine(doc[h]).id, title |-> ReqLine(doc[h]).title, loc |-> LocLine(file, h),
   covers |-> RefsOf(doc, file, h, "Covers"), depends |-> RefsOf(doc, file, h, "Depends"),
   attrs |-> {<<n, AttrValue(doc, h, n)>> : n \in AttrNames(doc, h)}]

AsDecl(r) == [id |-> r.id, title |-> r.title, loc |-> r.loc, covers |-> r.covers,
              depends |-> r.depends, attrs |-> Range(r.attrs)]
=============================================================================
