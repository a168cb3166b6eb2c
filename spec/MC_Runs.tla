------------------------------- MODULE MC_Runs -------------------------------
(* All interleavings of up to three runs that share inputs, and of kills.     *)
EXTENDS Runs
CONSTANTS N
VARIABLES w
J(f, t) == [file |-> f, tok |-> t]
All == << [inputs |-> {"i", "k"}, jobs |-> <<J("a", "1"), J("b", "2"), J("a", "3")>>],
          [inputs |-> {"i"}, jobs |-> <<J("c", "1"), J("d", "2")>>],
          [inputs |-> {}, jobs |-> <<J("e", "1")>>] >>
Runs_ == SubSeq(All, 1, N)
Files == {"a", "b", "c", "d", "e", "i", "k"}
Fs0 == [f \in Files |-> IF f \in {"a", "c", "i", "k"} THEN "old" ELSE "absent"]
Init == w = WStart(Runs_, Fs0)
P == 1..N
Read == \E p \in P : \E i \in Runs_[p].inputs : CanRead(w, Runs_, p, i) /\ i \notin w.ps[p].read /\ w' = ReadInput(w, p, i)
Step(p) == CanGo(w, Runs_, p) /\ w' = Go(w, Runs_, p)
Killed == \E p \in P : Alive(w, p) /\ w' = Kill(w, p)
Next == Read \/ Killed \/ \E p \in P : Step(p)
Spec == Init /\ [][Next]_w /\ WF_w(Read) /\ \A p \in P : WF_w(Step(p))

Begun(p) == IF w.ps[p].open THEN w.ps[p].at ELSE w.ps[p].at - 1       \* jobs 1..Begun were begun
Done(p) == w.ps[p].at - 1
Of(p) == {Runs_[p].jobs[k].file : k \in 1..Len(Runs_[p].jobs)}
Last(p, f, n) == LET S == {k \in 1..n : Runs_[p].jobs[k].file = f} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
C27_ReadFirst == \A p \in P : \A f \in Of(p) : w.fs[f] # Fs0[f] => w.ps[p].read = Runs_[p].inputs
C27_Others == \A f \in Files : (\A p \in P : f \notin Of(p)) => w.fs[f] = Fs0[f]
\* a finished job's output stays complete, whatever happens to this run or others, until a later job of the run writes the file
C27_Finished == \A p \in P : \A f \in Of(p) : LET k == Last(p, f, Begun(p)) IN
                   w.fs[f] = IF k = 0 THEN Fs0[f] ELSE IF k <= Done(p) THEN Runs_[p].jobs[k].tok ELSE "part"
C27_Alone == \A p \in P : w.ps[p].st = "over" => \A f \in Of(p) : w.fs[f] = Runs_[p].jobs[Last(p, f, Len(Runs_[p].jobs))].tok
C27_Ends == \A p \in P : <>[](~Alive(w, p))
C27_Dead == [][\A p \in P : ~Alive(w, p) => \A f \in Of(p) : w'.fs[f] = w.fs[f]]_w
=============================================================================
