------------------------------ MODULE MC_Order ------------------------------
(* The order in which artefacts are listed does not change anything, and the  *)
(* order of relations only the order of their results: every project of the   *)
(* family, with all orders of its artefacts and relations.                    *)
EXTENDS TraceDecl, Families
VARIABLES p, p2, perm, t
vars == <<p, p2, perm, t>>
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Permuted(s, f) == [i \in 1..Len(s) |-> s[f[i]]]
Init == /\ p \in Projects
        /\ \E f \in Perms(Len(p.arts)), g \in Perms(Len(p.rels)) :
             /\ perm = g
             /\ p2 = [arts |-> Permuted(p.arts, f), rels |-> Permuted(p.rels, g)]
        /\ t = TStart(p2)
Next == ~t.done /\ t' = TStep(t, p2) /\ UNCHANGED <<p, p2, perm>>
Spec == Init /\ [][Next]_vars
Ref0 == TRun(TStart(p), p)
SameRels == \A i \in 1..Len(p.rels) : perm[i] = i
C21_Artefacts == t.done /\ SameRels => t = Ref0
C21_Relations == t.done => LET u == Ref0 IN
  /\ \A i \in 1..Len(p.rels) : t.rels[i] = u.rels[perm[i]]
  /\ t.derived = u.derived /\ Range(t.errs) = Range(u.errs)
=============================================================================
