-------------------------------- MODULE Model --------------------------------
(* The data that all parts of the tool exchange.  Optional values are        *)
(* sequences of length 0 or 1.  Records of one kind always have the same      *)
(* fields, so that TLC can compare any two of them.                           *)
EXTENDS Text

(* Locations: k is N (file only), L (line), C (line and column), S (string)  *)
LocFile(f)         == [f |-> f, k |-> "N", l |-> "", c |-> "", s |-> ""]
LocLine(f, n)      == [f |-> f, k |-> "L", l |-> ToString(n), c |-> "", s |-> ""]
LocCol(f, n, c)    == [f |-> f, k |-> "C", l |-> ToString(n), c |-> ToString(c), s |-> ""]
NoLoc              == LocFile("")

Ref(id, title, loc) == [id |-> id, title |-> title, loc |-> loc]

Req(id, title, loc) ==
  [id |-> id, title |-> title, loc |-> loc, covers |-> <<>>, depends |-> <<>>,
   tags |-> <<>>, attrs |-> <<>>]

(* Attributes are a sequence of <<name, value>> pairs with distinct names.    *)
HasAttr(req, n) == \E i \in 1..Len(req.attrs) : req.attrs[i][1] = n
SetAttr(req, n, v) ==
  IF HasAttr(req, n)
  THEN [req EXCEPT !.attrs = [i \in 1..Len(@) |-> IF @[i][1] = n THEN <<n, v>> ELSE @[i]]]
  ELSE [req EXCEPT !.attrs = Append(@, <<n, v>>)]

(* Findings.  k names the kind; the other fields depend on it:                *)
(*   Format(loc)              malformed input at loc                          *)
(*   Io(x = path)             unreadable file                                 *)
(*   Config()                 unusable configuration of an artefact           *)
(*   DupAttr(loc, x attr, y req)                                              *)
(*   DupReq(x id, loc first definition, loc2 further definition)              *)
(*   ReqNoTitle(x id, loc of req)                                             *)
(*   CoveredWrong / DependWrong(loc of reference, x upper, y lower, z title)  *)
(*   RefNoTitle(loc of reference, x referenced)                               *)
(*   CoversUnknown / DependUnknown(loc of reference, x referencing, y id)     *)
(*   Unused(x upper artefact, y lower artefacts)                              *)
Err(k, loc, loc2, x, y, z) == [k |-> k, loc |-> loc, loc2 |-> loc2, x |-> x, y |-> y, z |-> z]
ErrFormat(loc)          == Err("Format", loc, NoLoc, "", "", "")
ErrIo(path)             == Err("Io", NoLoc, NoLoc, path, "", "")
ErrConfig               == Err("Config", NoLoc, NoLoc, "", "", "")
ErrDupAttr(loc, a, req) == Err("DupAttr", loc, NoLoc, a, req, "")
ErrDupReq(r1, r2)       == Err("DupReq", r1.loc, r2.loc, r1.id, "", "")
ErrReqNoTitle(r)        == Err("ReqNoTitle", r.loc, NoLoc, r.id, "", "")
ErrCoveredWrong(u, l, t, loc) == Err("CoveredWrong", loc, NoLoc, u.id, l.id, t)
ErrDependWrong(u, l, t, loc)  == Err("DependWrong", loc, NoLoc, u.id, l.id, t)
ErrRefNoTitle(r, loc)         == Err("RefNoTitle", loc, NoLoc, r.id, "", "")
ErrCoversUnknown(r, id, loc)  == Err("CoversUnknown", loc, NoLoc, r.id, id, "")
ErrDependUnknown(r, id, loc)  == Err("DependUnknown", loc, NoLoc, r.id, id, "")
ErrUnused(u, lo)              == Err("Unused", NoLoc, NoLoc, u, Join(lo, ", "), "")

-----------------------------------------------------------------------------
Range(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Range(s) : Count(s, x) = Count(t, x)
SameSet(s, t) == Range(s) = Range(t)
\* what is in s more often than in t, for messages
Surplus(s, t) == SelectSeq(s, LAMBDA x : Count(s, x) > Count(t, x))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]

\* sorting is TLC's SortSeq(s, Less)
SortStrings(s) == SortSeq(s, StrLess)
=============================================================================
