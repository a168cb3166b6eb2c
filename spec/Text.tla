-------------------------------- MODULE Text --------------------------------
(* Text as the tool sees it.  A text is a TLC string; Len, SubSeq and \o     *)
(* work on strings, so all scanning is done by index.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)

Nl == "\n"

\* Unicode white space that occurs in the explored texts
WS == {" ", "\t", "\n", "\r", "\f", " ", " ", "　"}

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
          "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
          "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}

\* the letters outside of ASCII that occur in explored texts
ULetter == {"Ä","Å","É","Ö","Ü","à","ß","ä","é","ö","ü","ÿ","ı","ſ","Σ","Ω","σ","ς",
            "ω","å","ａ","Д","д","Ж","ж","א","日","本","語","Ａ","ｅ"}
UpperBeyond == "ÄÅÉÖÜΩДЖＡ"
LowerBeyond == "äåéöüωджａ"

\* continues an identifier, but cannot start one
UMark   == {"·", "́"}

XidStart    == Lower \cup Upper \cup ULetter
XidContinue == XidStart \cup Digit \cup {"_"} \cup UMark
\* regex \w: alphabetic, mark, digit, connector punctuation
WordChar    == XidStart \cup Digit \cup {"_", "́"}

-----------------------------------------------------------------------------
RECURSIVE SkipIn(_, _, _)
\* the first position >= i whose character is not in the class C
SkipIn(s, i, C) == IF i <= Len(s) /\ Ch(s, i) \in C THEN SkipIn(s, i + 1, C) ELSE i

RECURSIVE SkipInBack(_, _, _)
SkipInBack(s, i, C) == IF i >= 1 /\ Ch(s, i) \in C THEN SkipInBack(s, i - 1, C) ELSE i

From(s, i)  == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
UpTo(s, j)  == IF j < 1 THEN "" ELSE SubSeq(s, 1, j)

LTrim(s) == From(s, SkipIn(s, 1, WS))
RTrim(s) == UpTo(s, SkipInBack(s, Len(s), WS))
Trim(s)  == RTrim(LTrim(s))
IsBlank(s) == SkipIn(s, 1, WS) > Len(s)

EndsWith(s, suffix) ==
  /\ Len(suffix) <= Len(s)
  /\ SubSeq(s, Len(s) - Len(suffix) + 1, Len(s)) = suffix
StartsWith(s, prefix) ==
  /\ Len(prefix) <= Len(s)
  /\ SubSeq(s, 1, Len(prefix)) = prefix

\* without one line feed at the end
NoNl(s) == IF EndsWith(s, Nl) THEN UpTo(s, Len(s) - 1) ELSE s

RECURSIVE FindFrom(_, _, _)
\* the first position >= i at which t occurs in s, 0 if there is none
FindFrom(s, t, i) ==
  IF i + Len(t) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i
  ELSE FindFrom(s, t, i + 1)

Contains(s, t) == FindFrom(s, t, 1) # 0

RECURSIVE SplitAt(_, _)
\* split by a one-character separator
SplitAt(s, c) ==
  LET i == FindFrom(s, c, 1) IN
  IF i = 0 THEN <<s>> ELSE <<UpTo(s, i - 1)>> \o SplitAt(From(s, i + 1), c)

RECURSIVE Join(_, _)
Join(ss, sep) ==
  IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
  ELSE ss[1] \o sep \o Join(Tail(ss), sep)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))

\* An identifier at position i of s: the position behind it, or 0 if there is none.
\* It has at least two characters and is taken as long as possible.
IdEnd(s, i) ==
  IF i > Len(s) \/ Ch(s, i) \notin XidStart THEN 0
  ELSE LET j == SkipIn(s, i + 1, XidContinue) IN IF j > i + 1 THEN j ELSE 0

IsIdent(s) == s # "" /\ IdEnd(s, 1) = Len(s) + 1

-----------------------------------------------------------------------------
\* `ID` or `ID: Title` from position i to the end of s; blanks around the parts
\* do not matter.  NoIdTitle if there is none.
NoIdTitle == [ok |-> FALSE, id |-> "", title |-> <<>>]
IdTitle(s, i) ==
  LET e == IdEnd(s, i) IN
  IF e = 0 THEN NoIdTitle
  ELSE LET id == SubSeq(s, i, e - 1) rest == From(s, e) IN
       IF IsBlank(rest) THEN [ok |-> TRUE, id |-> id, title |-> <<>>]
       ELSE IF Ch(rest, 1) = ":" /\ ~IsBlank(From(rest, 2))
            THEN [ok |-> TRUE, id |-> id, title |-> <<Trim(From(rest, 2))>>]
            ELSE NoIdTitle

-----------------------------------------------------------------------------
(* Order of texts: by code point.  Ranks are only needed for the characters  *)
(* that occur in ids and paths.                                               *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Beyond == "·ÄÅÉÖÜßàäéöüÿıſ́ΣΩςσЖджא日本語Ａｅ"
Ordered == "\t\n" \o Ascii \o Beyond
RankOf == [c \in {Ch(Ordered, i) : i \in 1..Len(Ordered)} |->
             CHOOSE i \in 1..Len(Ordered) : Ch(Ordered, i) = c]
Rank(c) == IF c \in DOMAIN RankOf THEN RankOf[c] ELSE 100000

RECURSIVE LessFrom(_, _, _)
LessFrom(s, t, i) ==
  IF i > Len(t) THEN FALSE
  ELSE IF i > Len(s) THEN TRUE
  ELSE IF Ch(s, i) = Ch(t, i) THEN LessFrom(s, t, i + 1)
  ELSE Rank(Ch(s, i)) < Rank(Ch(t, i))
StrLess(s, t) == LessFrom(s, t, 1)
StrLeq(s, t) == s = t \/ StrLess(s, t)
=============================================================================
