------------------------------ MODULE Sources ------------------------------
(* From the paths of an artefact to the contents of its files                 *)
(* (src/controller.rs).  A tree is a sequence of entries                      *)
(*   [p: names, kind: file | dir | locked, health: ok | bad | any,            *)
(*    reqs, errs: what a healthy file contributes]                            *)
(* `bad` files cannot be read or decoded, `any` ones may mean anything.       *)
(* An artefact is [id, many, paths]: many tells whether its paths are         *)
(* patterns; otherwise it has one file.                                       *)
(* The machine q works on one artefact: it expands one path after the other   *)
(* and reads one file after the other.                                        *)
EXTENDS Glob

Entries(tree) == Range(tree)
\* a directory that cannot be listed hides everything below it
Hidden(tree, p) == \E e \in Entries(tree) : /\ e.kind = "locked" /\ Len(e.p) < Len(p)
                                            /\ SubSeq(p, 1, Len(e.p)) = e.p
EntryAt(tree, p) == {e \in Entries(tree) : e.p = p}
Reachable(tree, p) == EntryAt(tree, p) # {} /\ ~Hidden(tree, p)
Wild(s) == \E c \in {"*", "?", "["} : Contains(s, c)

\* patterns in the base directory have no meaning: only the path itself is a pattern
Hits(tree, base, path) ==
  LET dir == IF IsAbs(path) THEN <<>> ELSE base
      ps == Up(<<>>, Names(path))
      n == Len(dir) IN
  {e \in Entries(tree) :
     /\ ~Hidden(tree, e.p)
     /\ IF \E i \in 1..Len(Names(path)) : Names(path)[i] = ".."
        THEN e.p = Resolve(base, path)
        ELSE Len(e.p) > n /\ SubSeq(e.p, 1, n) = dir /\ PathMatches(ps, SubSeq(e.p, n + 1, Len(e.p)))}

RECURSIVE ClassesClosed(_, _)
ClassesClosed(n, i) == LET k == FindFrom(n, "[", i) IN
  IF k = 0 THEN TRUE ELSE ClassEnd(n, k) # 0 /\ ClassesClosed(n, ClassEnd(n, k) + 1)
\* no pattern at all: `**` that is not a whole name, or a class without end
Invalid(path) == \E i \in 1..Len(Names(path)) : LET n == Names(path)[i] IN
  (n # "**" /\ Contains(n, "**")) \/ ~ClassesClosed(n, 1)

(* must: what has to be reported, may: what may be reported or ignored.       *)
QStart(art) == [todo |-> art.paths, queue |-> {}, files |-> {}, got |-> {}, must |-> {}, may |-> {},
                done |-> FALSE, config |-> FALSE]
At(p, raw) == [p |-> p, raw |-> raw]

\* the paths do not fit the kind of artefact
Unusable(art) == IF art.many THEN art.paths = <<>> ELSE Len(art.paths) # 1
Refuse(q) == [q EXCEPT !.done = TRUE, !.config = TRUE, !.todo = <<>>]
\* one path is expanded: entries to read, or a path that has to be reported
HitsOf(tree, base, art, path) ==
  IF ~art.many THEN {e \in EntryAt(tree, Resolve(base, path)) : ~Hidden(tree, e.p)}
  ELSE IF Invalid(path) THEN {} ELSE Hits(tree, base, path)
Expand(q, tree, base, art) ==
  LET path == Head(q.todo) hits == HitsOf(tree, base, art, path) IN
  [q EXCEPT !.todo = Tail(@),
            !.queue = @ \cup {[e |-> e, chosen |-> art.many /\ Wild(path)] : e \in hits},
            !.must = IF hits = {} THEN @ \cup {At(Resolve(base, path), path)} ELSE @]
\* one entry is read; a directory that a pattern happens to match may be passed over
Read(q, x) ==
  LET e == x.e q1 == [q EXCEPT !.queue = @ \ {x}] IN
  CASE e.kind = "file" /\ e.health = "ok"  -> [q1 EXCEPT !.files = @ \cup {e.p}, !.got = @ \cup {e}]
    [] e.kind = "file" /\ e.health = "any" -> [q1 EXCEPT !.files = @ \cup {e.p}, !.may = @ \cup {e.p}]
    [] e.kind # "file" /\ x.chosen         -> [q1 EXCEPT !.may = @ \cup {e.p}]
    [] OTHER -> [q1 EXCEPT !.must = @ \cup {At(e.p, "")}, !.may = @ \cup {e.p}]
Finish(q) == [q EXCEPT !.done = TRUE]

-----------------------------------------------------------------------------
(* What was observed of an artefact: o = [files, reqs, errs, config] with     *)
(* reqs and errs as [f: file as text, v: value].                              *)
Locked(tree) == {e.p : e \in {x \in Entries(tree) : x.kind = "locked"}}
Places(q, tree) == q.may \cup {m.p : m \in q.must} \cup Locked(tree)
OfFile(cwd, list, p) == SelectSeq(list, LAMBDA x : Resolve(cwd, x.f) = p)
Vals(list) == [i \in 1..Len(list) |-> list[i].v]
\* what healthy files contribute, and nothing else
\* a file that several paths select is read for each of them
Often(tree, base, art, e) ==
  Cardinality({i \in 1..Len(art.paths) : e \in HitsOf(tree, base, art, art.paths[i])}) > 1
Same(s, t, often) == SameBag(s, t) \/ (often /\ SameSet(s, t))
ContentOk(q, tree, base, art, cwd, o) ==
  /\ \A e \in q.got : LET often == Often(tree, base, art, e) IN
                      /\ Same(Vals(OfFile(cwd, o.reqs, e.p)), e.reqs, often)
                      /\ Same(Vals(OfFile(cwd, o.errs, e.p)), e.errs, often)
  /\ \A i \in 1..Len(o.reqs) : Resolve(cwd, o.reqs[i].f) \in {e.p : e \in q.got} \cup q.may \cup {m.p : m \in q.must}
  /\ \A i \in 1..Len(o.errs) : \/ Resolve(cwd, o.errs[i].f) \in {e.p : e \in q.got} \cup Places(q, tree)
                               \/ \E m \in q.must : m.raw = o.errs[i].f /\ m.raw # ""
\* every unusable file or path is reported by its name
ReportedOk(q, tree, cwd, o) ==
  /\ \A m \in q.must : \E i \in 1..Len(o.errs) :
       \/ Resolve(cwd, o.errs[i].f) = m.p
       \/ m.raw # "" /\ m.raw = o.errs[i].f
       \/ m.raw # "" /\ Resolve(cwd, o.errs[i].f) \in Locked(tree)
  /\ q.config => o.config > 0 /\ o.reqs = <<>>
  /\ o.config > 0 => q.config \/ q.must # {}
FilesOk(q, tree, cwd, o) ==
  q.config \/
  LET seen == {Resolve(cwd, o.files[i]) : i \in 1..Len(o.files)} IN
  /\ q.files \subseteq seen
  /\ seen \subseteq q.files \cup Places(q, tree)
=============================================================================
