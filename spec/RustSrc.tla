------------------------------ MODULE RustSrc ------------------------------
(* Reading coverage marks from Rust sources (src/parsers/rust.rs).            *)
(* A source is a sequence of chunks of text:                                  *)
(*   text    anything that is neither an item nor a mark                      *)
(*   item    the name of a module, trait or function or the type of an impl;  *)
(*           what follows up to the matching close is inside of it            *)
(*   close   the brace that ends the innermost item                           *)
(*   mark    the name of the macro; arg: one token in it; end: its last brace *)
(*   bad     text that makes the file no valid Rust                           *)
(* The machine s keeps the position, the enclosing items, the pending mark,   *)
(* the requirements and the errors.                                           *)
EXTENDS Model

Chunk(k, t) == [k |-> k, t |-> t, it |-> "", ty |-> <<>>, tr |-> <<>>, neg |-> FALSE, tok |-> ""]

RECURSIVE LinesIn(_, _)
LinesIn(t, i) == LET p == FindFrom(t, Nl, i) IN IF p = 0 THEN 0 ELSE 1 + LinesIn(t, p + 1)
RECURSIVE Tail_(_, _)
\* what is behind the last line feed
Tail_(t, i) == LET p == FindFrom(t, Nl, i) IN IF p = 0 THEN Len(t) - i + 1 ELSE Tail_(t, p + 1)
Move(s, t) == LET n == LinesIn(t, 1) IN
  [s EXCEPT !.line = @ + n, !.col = IF n = 0 THEN @ + Len(t) ELSE Tail_(t, 1)]

Symbol(c) == LET ty == Join(c.ty, " ") IN
  IF c.tr = <<>> THEN ty ELSE "(" \o ty \o " as " \o (IF c.neg THEN "!" ELSE "") \o Join(c.tr, " ") \o ")"

-----------------------------------------------------------------------------
(* Literals                                                                   *)
Escapes == [c \in {"n", "t", "r", "0", "\\", "\"", "'"} |->
             CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "r" -> "\r" [] OTHER -> c]
Coded == ("\\u{e9}" :> "é" @@ "\\u{41}" :> "A" @@ "\\x41" :> "A" @@ "\\u{00_e9}" :> "é" @@ "\\x7e" :> "~")
RECURSIVE Unescape(_)
Unescape(t) ==
  IF t = "" THEN ""
  ELSE IF Ch(t, 1) # "\\" THEN Ch(t, 1) \o Unescape(From(t, 2))
  ELSE IF \E x \in DOMAIN Coded : StartsWith(t, x)
       THEN LET x == CHOOSE x \in DOMAIN Coded : StartsWith(t, x) IN Coded[x] \o Unescape(From(t, Len(x) + 1))
  ELSE Escapes[Ch(t, 2)] \o Unescape(From(t, 3))
\* the text that a string literal, plain or raw, stands for
LitValue(t) ==
  IF Ch(t, 1) = "r"
  THEN LET h == SkipIn(t, 2, {"#"}) - 2 IN SubSeq(t, 3 + h, Len(t) - 1 - h)
  ELSE Unescape(SubSeq(t, 2, Len(t) - 1))

-----------------------------------------------------------------------------
NoMark == [on |-> FALSE, loc |-> NoLoc, args |-> <<>>]
RStart(file) == [file |-> file, line |-> 1, col |-> 0, stack |-> <<>>, mark |-> NoMark,
                 reqs |-> <<>>, errs |-> <<>>, broken |-> <<>>]
Here(s) == LocCol(s.file, s.line, s.col)
Scope(stack) == Join([i \in 1..Len(stack) |-> stack[i].sym], "::")

\* What a mark says, given its tokens: id and title, or where it is wrong.
Good(id, title) == [ok |-> TRUE, id |-> id, title |-> title, loc |-> NoLoc]
Wrong(loc)      == [ok |-> FALSE, id |-> "", title |-> <<>>, loc |-> loc]
Meaning(mark) ==
  LET a == mark.args n == Len(a) IN
  CASE n = 1 -> IF a[1].tok = "ident" THEN Good(a[1].t, <<>>)
                ELSE IF a[1].tok = "str" THEN Good(LitValue(a[1].t), <<>>) ELSE Wrong(a[1].loc)
    [] n = 3 -> IF a[1].tok # "ident" THEN Wrong(a[1].loc)
                ELSE IF a[3].tok # "str" THEN Wrong(a[3].loc) ELSE Good(a[1].t, <<LitValue(a[3].t)>>)
    [] OTHER -> Wrong(mark.loc)

AddCover(reqs, stack, ref) ==
  LET id == Scope(stack) S == {i \in 1..Len(reqs) : reqs[i].id = id} IN
  IF S # {} THEN LET i == CHOOSE i \in S : TRUE IN [reqs EXCEPT ![i].covers = Append(@, ref)]
  ELSE Append(reqs, [Req(id, <<>>, stack[Len(stack)].loc) EXCEPT !.covers = <<ref>>])

OnText(s, c)  == Move(s, c.t)
OnItem(s, c)  == Move([s EXCEPT !.stack = Append(@, [it |-> c.it, sym |-> Symbol(c), loc |-> Here(s)])], c.t)
OnClose(s, c) == Move([s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)], c.t)
OnMark(s, c)  == Move([s EXCEPT !.mark = [on |-> TRUE, loc |-> Here(s), args |-> <<>>]], c.t)
OnArg(s, c)   == Move([s EXCEPT !.mark.args = Append(@, [tok |-> c.tok, t |-> c.t, loc |-> Here(s)])], c.t)
OnEnd(s, c)   ==
  LET m == Meaning(s.mark) s0 == Move([s EXCEPT !.mark = NoMark], c.t) IN
  IF ~m.ok THEN [s0 EXCEPT !.errs = Append(@, ErrFormat(m.loc))]
  ELSE IF s.stack = <<>> THEN [s0 EXCEPT !.errs = Append(@, ErrFormat(s.mark.loc))]
  ELSE [s0 EXCEPT !.reqs = AddCover(@, s.stack, Ref(m.id, m.title, s.mark.loc))]
OnBad(s, c)   == Move([s EXCEPT !.broken = IF @ = <<>> THEN <<[loc |-> Here(s), exact |-> c.tok = "here"]>> ELSE @], c.t)
RStep(s, c) == CASE c.k = "text"  -> OnText(s, c)
                 [] c.k = "item"  -> OnItem(s, c)
                 [] c.k = "close" -> OnClose(s, c)
                 [] c.k = "mark"  -> OnMark(s, c)
                 [] c.k = "arg"   -> OnArg(s, c)
                 [] c.k = "end"   -> OnEnd(s, c)
                 [] c.k = "bad"   -> OnBad(s, c)

\* the result: nothing but one error if the file is no valid Rust
RReqs(s) == IF s.broken = <<>> THEN s.reqs ELSE <<>>
ErrsFit(s, errs) ==
  IF s.broken = <<>> THEN SameBag(errs, s.errs)
  ELSE /\ Len(errs) = 1 /\ errs[1].k = "Format" /\ errs[1].loc.f = s.file /\ errs[1].loc.k = "C"
       /\ s.broken[1].exact => errs[1].loc = s.broken[1].loc
=============================================================================
