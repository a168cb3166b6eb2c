-------------------------------- MODULE MdLex --------------------------------
(* The line forms of a Markdown artefact.  A line includes its terminator.   *)
EXTENDS Model

IsHeading(s) == s # "" /\ Ch(s, 1) = "#"

\* `#... ID: Title`
ReqLine(s) ==
  IF ~IsHeading(s) THEN NoIdTitle
  ELSE LET it == IdTitle(s, SkipIn(s, SkipIn(s, 1, {"#"}), WS)) IN
       IF it.ok /\ it.title # <<>> THEN it ELSE NoIdTitle
IsReqLine(s) == ReqLine(s).ok

\* `Name: value`; the value loses leading blanks and the line feed, nothing else
NoAttr == [ok |-> FALSE, name |-> "", value |-> ""]
AttrLine(s) ==
  IF s = "" \/ Ch(s, 1) \notin Upper THEN NoAttr
  ELSE LET e == SkipIn(s, 2, Lower) IN
       IF e > 2 /\ e <= Len(s) /\ Ch(s, e) = ":"
       THEN [ok |-> TRUE, name |-> UpTo(s, e - 1), value |-> NoNl(LTrim(From(s, e + 1)))]
       ELSE NoAttr
IsAttrLine(s) == AttrLine(s).ok

\* `* ID` or `* ID: Title`
BulletLine(s) ==
  LET b == SkipIn(s, 1, WS) IN
  IF b > Len(s) \/ Ch(s, b) \notin {"*", "+", "-"} THEN NoIdTitle
  ELSE LET i == SkipIn(s, b + 1, WS) IN IF i = b + 1 THEN NoIdTitle ELSE IdTitle(s, i)
IsBulletLine(s) == BulletLine(s).ok

\* the ids of `A, B, C`
ShortList(v) == SelectSeq([i \in 1..Len(SplitAt(v, ",")) |-> Trim(SplitAt(v, ",")[i])],
                          LAMBDA x : x # "")

IsRefAttr(n) == n \in {"Covers", "Depends"}

LineKind(s) ==
  IF IsBlank(s) THEN "Empty"
  ELSE IF IsReqLine(s) THEN "Req"
  ELSE IF IsHeading(s) THEN "Heading"
  ELSE "Line"
=============================================================================
