------------------------------ MODULE MC_Trace ------------------------------
(* All small projects: whatever the references and relations, the machine of  *)
(* Tracer ends with the result that TraceDecl defines.                        *)
EXTENDS TraceDecl, Families

VARIABLES p, t
vars == <<p, t>>

Init == p \in Projects /\ t = TStart(p)
Step(name, new) == TPhase(t, p) = name /\ t' = new /\ UNCHANGED p
DoAddArtefact == Step("AddArtefact", AddArtefact(t, p))
DoTraceUpper  == Step("TraceUpper", TraceUpper(t, p))
DoEndRelation == Step("EndRelation", EndRelation(t, p))
DoValidate    == Step("Validate", Validate(t))
Next == DoAddArtefact \/ DoTraceUpper \/ DoEndRelation \/ DoValidate
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
ErrsOf(kinds) == SelectSeq(t.errs, LAMBDA e : e.k \in kinds)

C01_Coverage  == t.done => \A i \in 1..Len(p.rels) : CoveredIs(p, i, t.rels[i].covered)
C02_Uncovered == t.done =>
  /\ \A i \in 1..Len(p.rels) : /\ Range(t.rels[i].uncovered) = UncoveredIds(p, i)
                               /\ Len(t.rels[i].uncovered) = Cardinality(UncoveredIds(p, i))
  /\ Range(ErrsOf({"Unused"})) = UnusedErrs(p)
C03_Derived   == t.done => t.derived = DerivedPairs(p)
C04_Dangling  == t.done => Range(ErrsOf({"CoversUnknown", "DependUnknown"})) = DanglingErrs(p)
C05_Titles    == t.done => Range(ErrsOf({"CoveredWrong", "DependWrong", "RefNoTitle"})) = AllTitleProblems(p)
C06_Duplicates == t.done => /\ Range(ErrsOf({"DupReq"})) = CrossDupErrs(p)
                            /\ Len(ErrsOf({"DupReq"})) = Cardinality(CrossDupErrs(p))
\* C06 within one artefact: one finding for each definition but the first
C06_Within == t.done => \A i \in 1..Len(p.arts) :
  LET a == p.arts[i] IN
  Len(SelectSeq(ArtErrs(a), LAMBDA e : e.k = "DupReq")) = Len(a.reqs) - Cardinality({r.id : r \in Range(a.reqs)})

\* a link that resolved never becomes dangling again, and what covers stays covering
Monotone == [][ (t'.n = t.n) => /\ t'.derived \subseteq t.derived
                                /\ t'.openCov \subseteq t.openCov
                                /\ t'.openDep \subseteq t.openDep ]_vars
\* no step gets stuck: the number of steps is known beforehand
Bounded == TLCGet("level") <= TSteps(p) + 1

(* Each relation is judged on its own: being covered along another relation   *)
(* changes nothing (C02), so every prefix of the relations has the same       *)
(* results for the relations it contains.                                     *)
Local == t.done => \A i \in 1..Len(p.rels) :
   TRun(TStart([p EXCEPT !.rels = <<p.rels[i]>>]), [p EXCEPT !.rels = <<p.rels[i]>>]).rels[1] = t.rels[i]
=============================================================================
