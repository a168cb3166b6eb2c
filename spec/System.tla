------------------------------- MODULE System -------------------------------
(* The whole way from the files of all artefacts to the trace result: the     *)
(* readers of the four kinds of files, the collection of artefacts and the    *)
(* tracer, composed.                                                          *)
(*                                                                            *)
(* A project p is [arts, rels]; an artefact is [id, kind, ignore, refTitle,   *)
(* files]; a file is [file: its name in locations, name, gone: it does not    *)
(* exist, lines, fail: lines before it cannot be decoded or -1, chunks, reqs].*)
(* The machine y reads file by file, closes artefact after artefact and then  *)
(* lets the tracer run.                                                       *)
EXTENDS TraceView
MD == INSTANCE MdParser
MO == INSTANCE Mono
RS == INSTANCE RustSrc
JB == INSTANCE Jobs

Result_(reqs, errs) == [reqs |-> reqs, errs |-> errs, vague |-> FALSE]
RECURSIVE MdFeed(_, _, _, _)
MdFeed(m, lines, i, n) == IF i > n THEN m ELSE MdFeed(MD!MdStep(m, lines[i]), lines, i + 1, n)
\* what becomes of the requirement of a malformed last section is not specified
FromMd(f) ==
  LET n == IF f.fail >= 0 THEN f.fail ELSE Len(f.lines)
      m == MdFeed(MD!MdStart(f.file), f.lines, 1, n)
      e == IF f.fail >= 0 THEN MD!OnReadError(m) ELSE MD!OnEof(m)
  IN [reqs |-> e.reqs, errs |-> e.errs, vague |-> e.cur # <<>>]
RECURSIVE MoFeed(_, _, _, _)
MoFeed(m, lines, i, n) == IF i > n THEN m ELSE MoFeed(MO!MStep(m, lines[i]), lines, i + 1, n)
FromMono(f) ==
  LET n == IF f.fail >= 0 THEN f.fail ELSE Len(f.lines)
      m == MoFeed(MO!MStart(f.file), f.lines, 1, n)
      e == IF f.fail >= 0 THEN MO!MBroken(m) ELSE MO!MEnd(m)
  IN Result_(<<MO!MReq(e, f.name)>>, e.errs)
RECURSIVE RsFeed(_, _, _)
RsFeed(s, chunks, i) == IF i > Len(chunks) THEN s ELSE RsFeed(RS!RStep(s, chunks[i]), chunks, i + 1)
\* where a broken source is wrong is not specified
FromRust(f) ==
  LET s == RsFeed(RS!RStart(f.file), f.chunks, 1) IN
  Result_(RS!RReqs(s), IF s.broken = <<>> THEN s.errs ELSE <<ErrFormat(LocFile(f.file))>>)
FromJson(f) == IF f.fail >= 0 THEN Result_(<<>>, <<ErrFormat(LocFile(f.file))>>) ELSE Result_(f.reqs, <<>>)
Reading(kind, f) ==
  IF f.gone THEN Result_(<<>>, <<ErrIo(f.file)>>)
  ELSE CASE kind = "md" -> FromMd(f) [] kind = "mono" -> FromMono(f) [] kind = "rust" -> FromRust(f) [] OTHER -> FromJson(f)

-----------------------------------------------------------------------------
Fits(a) == IF a.kind = "rust" THEN a.files # <<>> ELSE Len(a.files) = 1
YStart == [ai |-> 1, fi |-> 1, reqs |-> <<>>, errs |-> <<>>, arts |-> <<>>, vague |-> FALSE, t |-> <<>>]

ReadFile(y, p) ==
  LET a == p.arts[y.ai] r == Reading(a.kind, a.files[y.fi]) IN
  [y EXCEPT !.fi = @ + 1, !.reqs = @ \o r.reqs, !.errs = @ \o r.errs, !.vague = @ \/ r.vague]
\* all files of the artefact are read, or it does not say which
CloseArtefact(y, p) ==
  LET a == p.arts[y.ai] IN
  [y EXCEPT !.ai = @ + 1, !.fi = 1, !.reqs = <<>>, !.errs = <<>>,
            !.arts = Append(@, [id |-> a.id, ignore |-> a.ignore, refTitle |-> a.refTitle, reqs |-> y.reqs,
                                errs |-> IF Fits(a) THEN y.errs ELSE <<ErrConfig>>])]
Read_(y, p) == [arts |-> y.arts, rels |-> p.rels]
StartTrace(y, p) == [y EXCEPT !.t = <<TStart(Read_(y, p))>>]
Trace(y, p) == [y EXCEPT !.t = <<TStep(@[1], Read_(y, p))>>]

YPhase(y, p) ==
  CASE y.ai <= Len(p.arts) /\ Fits(p.arts[y.ai]) /\ y.fi <= Len(p.arts[y.ai].files) -> "ReadFile"
    [] y.ai <= Len(p.arts) -> "CloseArtefact"
    [] y.t = <<>> -> "StartTrace"
    [] ~y.t[1].done -> TPhase(y.t[1], Read_(y, p))
    [] OTHER -> "Done"
YStep(y, p) ==
  CASE YPhase(y, p) = "ReadFile" -> ReadFile(y, p)
    [] YPhase(y, p) = "CloseArtefact" -> CloseArtefact(y, p)
    [] YPhase(y, p) = "StartTrace" -> StartTrace(y, p)
    [] OTHER -> Trace(y, p)
RECURSIVE YRun(_, _)
YRun(y, p) == IF YPhase(y, p) = "Done" THEN y ELSE YRun(YStep(y, p), p)

-----------------------------------------------------------------------------
\* problems in broken sources are compared without their place
IsBroken(f) == ~f.gone /\ \E i \in 1..Len(f.chunks) : f.chunks[i].k = "bad"
Broken(p) == UNION {{f.file : f \in {x \in Range(a.files) : a.kind = "rust" /\ IsBroken(x)}} : a \in Range(p.arts)}
Vague(e, broken) == IF e.k = "Format" /\ e.loc.f \in broken THEN ErrFormat(LocFile(e.loc.f)) ELSE e

InputKinds == {"Format", "Io", "Config", "DupAttr"}
SameInput(obs, y, p) ==
  LET broken == Broken(p) IN
  \A i \in 1..Len(y.arts) : LET a == y.arts[i] IN
    SameBag(MapSeq(Pick(ObsArt(obs, a.id).errs, InputKinds), LAMBDA e : Vague(e, broken)), Pick(ArtErrs(a), InputKinds))
KnownKinds(obs) ==
  /\ \A i \in 1..Len(obs.arts) : \A e \in Range(obs.arts[i].errs) : e.k \in InputKinds \cup {"DupReq", "ReqNoTitle"}
  /\ \A e \in Range(obs.errs) : e.k \in {"DupReq", "Unused"} \cup Unknown \cup TitleKinds
YVerdict(y) ==
  LET t == y.t[1] IN
  JB!Verdict([arts |-> MapSeq(y.arts, LAMBDA a : [errs |-> ArtErrs(a)]), errs |-> t.errs, rels |-> t.rels,
              derived |-> <<[ids |-> SetSeq(t.derived)]>>])
=============================================================================
