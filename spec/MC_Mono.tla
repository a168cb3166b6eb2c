------------------------------ MODULE MC_Mono ------------------------------
(* All files of up to MaxLines lines over the line forms.                     *)
EXTENDS Mono
CONSTANTS MaxLines
VARIABLES doc, m
vars == <<doc, m>>
Alphabet == {"\n", "---\n", " # Ti tle!!\n", "x\n", "text => AA\n", "=>BB: T t \r\n", "=> A\n", "=> AA BB\n", "=> AA:\n", "=> AA:  \n",
             "a => b => CC\n", "=> AA.\n", "\t=> Dd_1\t\n", "=> AA: x => BB: y\n", "-> AA\n", "AA\n", "= > AA\n", "==>EE\n", "=> => FF\n"}
Init == doc = <<>> /\ m = MStart("f")
Read(k, line, new) == /\ ~m.done /\ Len(doc) < MaxLines /\ MKind(m, line) = k
                      /\ doc' = Append(doc, line) /\ m' = new
ReadTitle == \E x \in Alphabet : Read("Title", x, OnTitle(m, x))
ReadArrow == \E x \in Alphabet : Read("Arrow", x, OnArrow(m, x))
ReadOther == \E x \in Alphabet : Read("Other", x, OnOther(m, x))
End == ~m.done /\ m' = MEnd(m) /\ UNCHANGED doc
Break == ~m.done /\ m' = MBroken(m) /\ UNCHANGED doc
Next == ReadTitle \/ ReadArrow \/ ReadOther \/ End \/ Break
Spec == Init /\ [][Next]_vars

C18_Title == m.title = DeclTitle(doc)
C18_Refs == /\ Range(m.deps) = DeclRefs(doc, "f")
            /\ Len(m.deps) = Cardinality(DeclRefs(doc, "f"))
            /\ \A i, j \in 1..Len(m.deps) : i < j => m.deps[i].loc # m.deps[j].loc
C18_Always == m.done => LET r == MReq(m, "My_Req.md") IN r.id = "My_Req" /\ r.covers = <<>> /\ r.depends = m.deps
\* what was read is never taken back, also when the file breaks off
C18_Grow == [][ /\ m.title # <<>> => m'.title = m.title
                /\ Len(m'.deps) >= Len(m.deps) /\ SubSeq(m'.deps, 1, Len(m.deps)) = m.deps ]_vars
ASSUME /\ Stem("a.md") = "a" /\ Stem("a.b.md") = "a.b" /\ Stem(".x") = ".x" /\ Stem("x") = "x" /\ Stem("x.") = "x" /\ Stem(".x.y") = ".x"
=============================================================================
