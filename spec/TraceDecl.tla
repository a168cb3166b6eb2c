------------------------------ MODULE TraceDecl ------------------------------
(* What a trace result has to say about a project, independent of any order   *)
(* of working: properties C01 to C06 as definitions over the project.         *)
EXTENDS Tracer

\* position of an artefact in the order of ids
Earlier(a, b) == StrLess(a, b)

\* id is defined in artefact a, and in no artefact before it
OwnIds(p, a) == {r.id : r \in Range(Kept(Art(p, a).reqs))}
Owns(p, a, id) == id \in OwnIds(p, a) /\ \A b \in ArtIds(p) : Earlier(b, a) => id \notin OwnIds(p, b)
ReqOf(p, a, id) == ById(Kept(Art(p, a).reqs), id)

(* The links along relation i: which reference of which requirement           *)
(* establishes them.                                                          *)
DownLinks(p, i) ==
  LET rel == p.rels[i] IN
  UNION {UNION {
     {[u |-> u.id, l |-> u.depends[k].id, la |-> la, k |-> k, dir |-> "Downwards"] :
          k \in {x \in 1..Len(u.depends) : Owns(p, la, u.depends[x].id)}}
     : la \in Range(rel.lower)} : u \in Range(Kept(Art(p, rel.upper).reqs))}
UpLinks(p, i) ==
  LET rel == p.rels[i] IN
  UNION {UNION {
     {[u |-> x.covers[k].id, l |-> x.id, la |-> la, k |-> k, dir |-> "Upwards"] :
          k \in {y \in 1..Len(x.covers) : x.covers[y].id \in OwnIds(p, rel.upper)}}
     : x \in {y \in Range(Kept(Art(p, la).reqs)) : Owns(p, la, y.id)}} : la \in Range(rel.lower)}
Links(p, i) == DownLinks(p, i) \cup UpLinks(p, i)

LinkRef(p, i, x) == IF x.dir = "Downwards" THEN ReqOf(p, p.rels[i].upper, x.u).depends[x.k]
                    ELSE ReqOf(p, x.la, x.l).covers[x.k]
LinkCov(p, i, x) == Cov(x.u, x.l, LinkRef(p, i, x).loc, x.dir)

\* C01: every link once
CoveredIs(p, i, covered) ==
  /\ Len(covered) = Cardinality(Links(p, i))
  /\ \A x \in Links(p, i) :
       Count(covered, LinkCov(p, i, x))
         = Cardinality({y \in Links(p, i) : LinkCov(p, i, y) = LinkCov(p, i, x)})

\* C02
UncoveredIds(p, i) == {id \in OwnIds(p, p.rels[i].upper) : ~\E x \in Links(p, i) : x.u = id}
UnusedErrs(p) == {ErrUnused(p.rels[i].upper, p.rels[i].lower) :
                    i \in {j \in 1..Len(p.rels) : Links(p, j) = {}}}

\* C03
Covering(p) == UNION {{<<x.la, x.l>> : x \in Links(p, i)} : i \in 1..Len(p.rels)}
DerivedPairs(p) ==
  UNION {{<<a, id>> : id \in {y \in OwnIds(p, a) : Owns(p, a, y) /\ <<a, y>> \notin Covering(p)}}
           : a \in {b \in ArtIds(p) : ~IgnoresDerived(p, Art(p, b))}}

\* C04
Resolved(p, dir) == UNION {{<<x.u, x.l>> : x \in {y \in Links(p, i) : y.dir = dir}} : i \in 1..Len(p.rels)}
Firsts(p) == UNION {{r \in Range(Kept(Art(p, a).reqs)) : Owns(p, a, r.id)} : a \in ArtIds(p)}
DanglingErrs(p) ==
  UNION {{ErrCoversUnknown(r, id, FirstRef(r.covers, id).loc) :
            id \in {y \in {r.covers[k].id : k \in 1..Len(r.covers)} : <<y, r.id>> \notin Resolved(p, "Upwards")}}
         \cup
         {ErrDependUnknown(r, id, FirstRef(r.depends, id).loc) :
            id \in {y \in {r.depends[k].id : k \in 1..Len(r.depends)} : <<r.id, y>> \notin Resolved(p, "Downwards")}}
         : r \in Firsts(p)}

\* C05
TitleProblems(p, i) ==
  UNION {LET c == LinkRef(p, i, x)
             u == ReqOf(p, p.rels[i].upper, x.u)
             l == ReqOf(p, x.la, x.l)
             target == IF x.dir = "Downwards" THEN l ELSE u
             art == IF x.dir = "Downwards" THEN Art(p, x.la) ELSE Art(p, p.rels[i].upper)
         IN IF c.title = <<>>
            THEN IF art.refTitle THEN {ErrRefNoTitle(target, c.loc)} ELSE {}
            ELSE IF c.title = target.title THEN {}
            ELSE IF x.dir = "Downwards" THEN {ErrDependWrong(u, l, c.title[1], c.loc)}
            ELSE {ErrCoveredWrong(u, l, c.title[1], c.loc)}
         : x \in Links(p, i)}
AllTitleProblems(p) == UNION {TitleProblems(p, i) : i \in 1..Len(p.rels)}

\* C06
CrossDupErrs(p) ==
  UNION {{LET b == CHOOSE x \in ArtIds(p) : Owns(p, x, id) IN ErrDupReq(ReqOf(p, b, id), ReqOf(p, a, id))
            : id \in {y \in OwnIds(p, a) : ~Owns(p, a, y)}} : a \in ArtIds(p)}
=============================================================================
