------------------------------- MODULE Library -------------------------------
(***************************************************************************)
(* Model files, model objects and stored objects: the state machine of     *)
(* reading, changing, saving and loading models, as its user sees it.      *)
(*                                                                         *)
(*   files   file name -> [v |-> variant of the model text, or "none",     *)
(*                         f |-> variant of the functions file, or "none"] *)
(*   hs      the model objects at hand (handles), in order of creation     *)
(*   npz     stored models: file name -> snapshot                          *)
(*   rds     stored results: file name -> name of the dictionary           *)
(*   memo    values of the posterior of a prepared estimation              *)
(*                                                                         *)
(* There is no cache, and a handle is a value: nothing that happens to one *)
(* handle or file can have an effect on another handle.                    *)
(***************************************************************************)
EXTENDS Session

Variants == {"A", "B", "C", "D", "E", "F", "G", "P"}
UsesFunc(v) == v \in {"D", "E"}
VName(v) == CASE v = "F" -> "other" [] v = "G" -> "p m" [] OTHER -> "pm"
VCalib(v) == CASE v = "B" -> [Calib EXCEPT !["phi_pi"] = "2.0"]
               [] v = "E" -> [Calib EXCEPT !["sg"] = "1.1"]
               [] OTHER -> Calib
\* factor of the slope
VFactor(v, f) == CASE v = "C" -> "2.0"
                   [] UsesFunc(v) /\ f = "f2" -> "1.5"
                   [] OTHER -> "1.0"
VDerived(h, p) == LET d == Derived(p) IN [d EXCEPT !["kap"] = RMul(VFactor(h.v, h.f), @)]
VModel(h, p) == PModelD(p, TLCEval(VDerived(h, p)))
VFresh(h, p, L, K) == FreshM(VModel(h, p), L, K)
VPrior(h) == [n \in EstSet |-> IF n = "phi_pi" /\ h.v = "F" THEN [Prior[n] EXCEPT !.a = "1.9"]
                              ELSE IF n = "th" /\ h.v = "P" THEN [Prior[n] EXCEPT !.b = "0.8"] ELSE Prior[n]]
VPriorMean(h) == [n \in ParSet |-> IF n \notin EstSet THEN VCalib(h.v)[n]
                                   ELSE LET q == VPrior(h)[n] IN IF q.dist = "uniform" THEN RDiv(RAdd(q.a, q.b), "2.0") ELSE q.a]
VAccept(h, p) == LET k == Solve(TLCEval(Mats(VModel(h, p)))).kind IN k

None == [none |-> TRUE]
Readable(fl) == fl.v # "none" /\ (UsesFunc(fl.v) => fl.f # "none")
\* the object that reading prescribes
NewHandle(v, f, dir, name, org) ==
    LET h == [v |-> v, f |-> f] IN
    [v |-> v, f |-> f, dir |-> dir, name |-> name, org |-> org, par |-> VCalib(v), L |-> 3, K |-> 17,
     cur |-> TLCEval(VFresh(h, VCalib(v), 3, 17)), data |-> <<>>, idx |-> <<>>, est |-> NoEst, ready |-> FALSE, mode |-> <<>>, tune |-> "none", pmok |-> TRUE, pm |-> VPriorMean(h), last |-> None]
LStart == [files |-> <<>>, hs |-> <<>>, npz |-> <<>>, rds |-> <<>>, memo |-> <<>>, ne |-> 0]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
NoFile == [v |-> "none", f |-> "none"]

Snapshot(h) == [v |-> h.v, f |-> h.f, name |-> h.name, data |-> h.data, idx |-> h.idx, est |-> h.est, mode |-> h.mode, tune |-> h.tune]
MoveTo(h, p, L, K) == IF p = h.par /\ L = h.L /\ K = h.K THEN h ELSE [h EXCEPT !.par = p, !.L = L, !.K = K, !.cur = TLCEval(VFresh(h, p, L, K))]

-----------------------------------------------------------------------------
(* What a digest of a handle must show.  Tag: property charged. *)
VStd(h, p) == PStd(p)
HandleBad(tag, h, dg, who) ==
    IF ~dg.ok THEN {<<tag, "object unusable", who, dg.exc, dg.msg>>}
    ELSE (IF dg.name = h.name THEN {} ELSE {<<tag, "name", who, dg.name>>})
         \cup (IF dg.dir = h.dir THEN {} ELSE {<<tag, "folder", who, dg.dir, h.dir>>})
         \cup (IF dg.obsn = ObsNames THEN {} ELSE {<<tag, "observables", who, dg.obsn>>})
         \cup (IF dg.estn = EstNames THEN {} ELSE {<<tag, "estimated parameters", who, dg.estn>>})
         \cup (IF SamePar(ToPar(dg.par), h.par) THEN {} ELSE {<<tag, "parameters", who, [n \in {n \in ParSet : ~RClose(ToPar(dg.par)[n], h.par[n], PTol)} |-> <<ToPar(dg.par)[n], h.par[n]>>]>>})
         \cup (IF SamePar(ToPar(dg.calib), VCalib(h.v)) THEN {} ELSE {<<tag, "calibration", who>>})
         \cup (IF ~h.pmok \/ SamePar(ToPar(dg.pm), h.pm) THEN {} ELSE {<<tag, "prior mean", who>>})
         \cup (IF RClose(dg.kap, VDerived(h, h.par).kap, PTol) THEN {} ELSE {<<tag, "derived parameter", who, dg.kap>>})
         \cup (IF dg.data = h.data /\ dg.idx = h.idx THEN {} ELSE {<<tag, "data", who>>})
         \cup (IF dg.mode = h.mode THEN {} ELSE {<<tag, "mode", who, dg.mode, h.mode>>})
         \cup (IF dg.tune = h.tune THEN {} ELSE {<<tag, "length of the tail of the chain", who, dg.tune, h.tune>>})
         \cup (IF ~SamePar(ToPar(dg.par), h.par) THEN {}
               ELSE IF h.cur.tab = <<>> THEN {<<tag, "no solution at the parameters", who>>}
               ELSE {c \o <<who>> : c \in StepsBad(tag, h.cur, dg)}
                    \cup (IF VClose(dg.obs, PObs(h.par, dg.s1.x), Tol) THEN {} ELSE {<<tag, "observation mapping", who>>})
                    \cup (IF MClose(dg.cov, Diag(VStd(h, h.par)), Tol) THEN {} ELSE {<<tag, "shock covariance", who>>}))

StoreOps == {"save", "load", "loadest", "srd", "lrd"}
TagsFor(ev, h, i) ==
    IF ev.op \in StoreOps THEN (IF ev.op # "load" /\ h.org = "read" /\ ev.h # i THEN {"C08", "C09"} ELSE {"C09"})
    ELSE IF h.org = "read" THEN {"C08"} ELSE {"C08", "C09"}
\* every handle is looked at after every operation
AllBad(st, ev) ==
    IF Len(ev.digs) # Len(st.hs) THEN {<<"C08", "number of objects">>}
    ELSE UNION {IF ev.digs[i] = st.hs[i].last THEN {}
                ELSE UNION {HandleBad(t, st.hs[i], ev.digs[i], i) : t \in TagsFor(ev, st.hs[i], i)} : i \in 1..Len(st.hs)}
Remember(st, ev) ==
    [st EXCEPT !.hs = [i \in 1..Len(st.hs) |->
        LET h == st.hs[i]
            d == IF i <= Len(ev.digs) THEN ev.digs[i] ELSE None
        IN  [h EXCEPT !.last = IF d = h.last THEN d ELSE IF HandleBad("x", h, d, i) = {} THEN d ELSE None]]]

-----------------------------------------------------------------------------
Changed(st, i, h) == [st EXCEPT !.hs[i] = [h EXCEPT !.last = None]]
Added(st, h) == [st EXCEPT !.hs = Append(@, h)]

DoRead(st, ev) ==
    LET fl == Get(st.files, ev.file, NoFile) IN
    IF ~Readable(fl) THEN [st |-> st, bad |-> IF ev.ok THEN {<<"C08", "read without file or functions", fl>>} ELSE {}]
    ELSE IF ~ev.ok THEN [st |-> st, bad |-> {<<"C08", "not readable", fl, ev.exc, ev.msg>>}]
    ELSE [st |-> Added(st, NewHandle(fl.v, fl.f, ev.dir, VName(fl.v), "read")), bad |-> {}]

DoSet(st, ev) ==
    LET h == st.hs[ev.h]
        p == [h.par EXCEPT ![ev.name] = ev.value]
        L == IF Has(ev, "lmax") THEN Horizon(ev.lmax, ev.kmax)[1] ELSE h.L
        K == IF Has(ev, "kmax") THEN ev.kmax ELSE h.K
        tag == IF h.org = "read" THEN "C08" ELSE "C09"
    IN  IF VAccept(h, p) # "unique" THEN [st |-> st, bad |-> {}]
        ELSE IF ~ev.ok THEN [st |-> st, bad |-> {<<tag, "setting rejected", ev.exc, ev.msg>>}]
        ELSE [st |-> Changed(st, ev.h, TLCEval(MoveTo(h, p, L, K))), bad |-> {}]

DoData(st, ev) ==
    IF ~ev.ok THEN [st |-> st, bad |-> {<<"C08", "data rejected", ev.exc, ev.msg>>}]
    ELSE [st |-> Changed(st, ev.h, [st.hs[ev.h] EXCEPT !.data = ev.Z, !.idx = ev.idx]), bad |-> {}]

\* preparation of the estimation, followed by a setting of the parameters and of the horizon
DoPrep(st, ev) ==
    LET h == st.hs[ev.h]
        \* whether draws are transformed: as asked, else as stored, else not
        u == IF ev.upt >= 0 THEN ev.upt ELSE IF h.est.kind # "none" THEN h.est.upt ELSE 0
        e == [kind |-> IF ev.linear THEN "lin" ELSE "nl", R |-> ev.R, id |-> st.ne + 1, upt |-> u]
        tag == IF h.org = "read" THEN "C08" ELSE "C09"
    IN  IF h.data = <<>> THEN [st |-> st, bad |-> {}]
        ELSE IF ~ev.ok THEN [st |-> st, bad |-> {<<tag, "preparation failed", ev.exc, ev.msg>>}]
        ELSE [st |-> [Changed(st, ev.h, [TLCEval(MoveTo(h, VCalib(h.v), 2, 5)) EXCEPT !.est = e, !.ready = TRUE]) EXCEPT !.ne = @ + 1], bad |-> {}]
\* preparation with the stored settings
DoLoadEst(st, ev) ==
    LET h == st.hs[ev.h] IN
    IF h.est.kind = "none" \/ h.data = <<>> THEN [st |-> st, bad |-> {}]
    ELSE IF ~ev.ok THEN [st |-> st, bad |-> {<<"C09", "preparation with stored settings failed", ev.exc, ev.msg>>}]
    ELSE [st |-> Changed(st, ev.h, [TLCEval(MoveTo(h, VCalib(h.v), 2, 5)) EXCEPT !.ready = TRUE]), bad |-> {}]

VPost(h, v) ==
    LET lp == VSum([i \in 1..Len(EstNames) |-> LET q == VPrior(h)[EstNames[i]] IN LgPrior(q.dist, v[i], q.a, q.b)])
        p == WithEst(VCalib(h.v), v)
    IN  RAdd(lp, LogLik(LinSys(VFresh(h, p, 0, 0), p, h.est.R), h.data))
\* the posterior: reference for the linear filter, equal values over save and load for the nonlinear one;
\* afterwards the driver sets the calibration again
DoLprob(st, ev) ==
    LET h == st.hs[ev.h]
        tag == IF h.org = "read" THEN "C08" ELSE "C09"
        seen == SelectSeq(st.memo, LAMBDA q : q[1] = <<h.est.id, ev.vec, h.data>>)
        nxt == Changed(st, ev.h, TLCEval(MoveTo(h, VCalib(h.v), 2, 5)))
    IN  IF ~h.ready THEN [st |-> st, bad |-> {}]
        ELSE IF ~ev.ok THEN [st |-> st, bad |-> {<<tag, "posterior failed", ev.exc, ev.msg>>}]
        ELSE IF h.est.kind = "lin" /\ h.est.upt = 0
        THEN [st |-> nxt, bad |-> IF RClose(ev.ret, VPost(h, ev.vec), "1e-6") THEN {} ELSE {<<tag, "log posterior", ev.ret, VPost(h, ev.vec)>>}]
        ELSE [st |-> IF seen = <<>> THEN [nxt EXCEPT !.memo = Append(@, <<<<h.est.id, ev.vec, h.data>>, ev.ret>>)] ELSE nxt,
              bad |-> IF seen = <<>> \/ RClose(ev.ret, seen[1][2], "1e-9") THEN {} ELSE {<<"C09", "log posterior", ev.ret, seen[1][2]>>}]
\* a short sampling run: the mode is what the object reports afterwards
DoMcmc(st, ev) ==
    LET h == st.hs[ev.h]
        tag == IF h.org = "read" THEN "C08" ELSE "C09"
        \* without a seed of its own the run uses the one of the preparation: the same run, whether stored in between or not
        key == <<h.est.id, "run", ev.seed, ev.tune, h.data>>
        seen == SelectSeq(st.memo, LAMBDA q : q[1] = key)
        nxt == Changed(st, ev.h, [TLCEval(MoveTo(h, VCalib(h.v), 2, 5)) EXCEPT !.mode = ev.mode, !.tune = ToString(ev.tune)])
    IN  IF ~h.ready THEN [st |-> st, bad |-> {}]
        ELSE IF ~ev.ok THEN [st |-> st, bad |-> {<<tag, "sampling failed", ev.exc, ev.msg>>}]
        ELSE IF ~ev.own THEN [st |-> nxt, bad |-> {}]
        ELSE [st |-> IF seen = <<>> THEN [nxt EXCEPT !.memo = Append(@, <<key, ev.mode>>)] ELSE nxt,
              bad |-> IF seen = <<>> \/ VClose(ev.mode, seen[1][2], "1e-6") THEN {} ELSE {<<"C09", "another run with the stored settings", ev.mode, seen[1][2]>>}]

\* other measurement errors for a prepared estimation: from here on they are the ones of the object
DoSetR(st, ev) ==
    LET h == st.hs[ev.h] IN
    IF ~h.ready THEN [st |-> st, bad |-> {}]
    ELSE [st |-> [Changed(st, ev.h, [h EXCEPT !.est = [@ EXCEPT !.R = ev.R, !.id = st.ne + 1]]) EXCEPT !.ne = @ + 1], bad |-> {}]

DoRename(st, ev) == [st |-> Changed(st, ev.h, [st.hs[ev.h] EXCEPT !.name = ev.name]), bad |-> {}]
\* the user edits what belongs to the object (its prior)
DoMutate(st, ev) == [st |-> Changed(st, ev.h, [st.hs[ev.h] EXCEPT !.pmok = FALSE]), bad |-> {}]

Join(d, n) == d \o "/" \o n
MetaFile(h, ev) == IF Has(ev, "file") THEN ev.file ELSE Join(h.dir, h.name \o "_meta.npz")
DoSave(st, ev) ==
    LET h == st.hs[ev.h] IN
    IF ~ev.ok THEN [st |-> st, bad |-> {<<"C09", "saving failed", ev.exc, ev.msg>>}]
    ELSE [st |-> [st EXCEPT !.npz = Put(@, MetaFile(h, ev), Snapshot(h))],
          bad |-> IF MetaFile(h, ev) \in Range(ev.there) THEN {} ELSE {<<"C09", "no file", MetaFile(h, ev), ev.there>>}]
FromSnap(s, dir) == [NewHandle(s.v, s.f, dir, s.name, "load") EXCEPT !.data = s.data, !.idx = s.idx, !.est = s.est, !.mode = s.mode, !.tune = s.tune]
DoLoad(st, ev) ==
    IF ev.file \notin DOMAIN st.npz THEN [st |-> st, bad |-> IF ev.ok THEN {<<"C09", "loaded from nothing">>} ELSE {}]
    ELSE IF ~ev.ok THEN [st |-> st, bad |-> {<<"C09", "loading failed", ev.how, ev.exc, ev.msg>>}]
    ELSE LET h == FromSnap(st.npz[ev.file], ev.dir) IN
         IF ev.how \in {"obj", "text"} THEN [st |-> Added(st, h), bad |-> {}]
         \* in another process: only its digest comes back
         ELSE [st |-> st, bad |-> HandleBad("C09", h, ev.dig, "other process")
                                  \cup (IF Has(ev, "post") /\ h.est.kind = "lin" /\ h.est.upt = 0 /\ ~RClose(ev.post, VPost(h, ev.vec), "1e-6")
                                        THEN {<<"C09", "log posterior in the other process", ev.post>>} ELSE {})]

\* result dictionaries
RdFile(h, ev) ==
    LET base == IF ev.path = "" THEN h.name \o "_res" ELSE ev.path
    IN  (IF ev.abs THEN ev.adir \o "/" \o base ELSE Join(h.dir, base)) \o ev.suffix \o ".npz"
DoSaveRd(st, ev) ==
    IF ~ev.ok THEN [st |-> st, bad |-> {<<"C09", "storing results failed", ev.exc, ev.msg>>}]
    ELSE [st |-> [st EXCEPT !.rds = Put(@, RdFile(st.hs[ev.h], ev), ev.val)], bad |-> {}]
DoLoadRd(st, ev) ==
    LET f == RdFile(st.hs[ev.h], ev) IN
    IF f \notin DOMAIN st.rds THEN [st |-> st, bad |-> IF ev.ok THEN {<<"C09", "results from nothing", f>>} ELSE {}]
    ELSE IF ~ev.ok THEN [st |-> st, bad |-> {<<"C09", "results not found", f, ev.exc, ev.msg>>}]
    ELSE [st |-> st, bad |-> IF ev.ret = st.rds[f] THEN {} ELSE {<<"C09", "results differ", f>>}]

LDo(st, ev) ==
    CASE ev.op = "write" -> [st |-> [st EXCEPT !.files = Put(@, ev.file, [Get(@, ev.file, NoFile) EXCEPT !.v = ev.v])], bad |-> {}]
      [] ev.op = "funcs" -> [st |-> [st EXCEPT !.files = Put(@, ev.file, [Get(@, ev.file, NoFile) EXCEPT !.f = ev.f])], bad |-> {}]
      [] ev.op = "read" -> DoRead(st, ev)
      [] ev.op = "set" -> DoSet(st, ev)
      [] ev.op = "data" -> DoData(st, ev)
      [] ev.op = "prep" -> DoPrep(st, ev)
      [] ev.op = "loadest" -> DoLoadEst(st, ev)
      [] ev.op = "lprob" -> DoLprob(st, ev)
      [] ev.op = "mcmc" -> DoMcmc(st, ev)
      [] ev.op = "setr" -> DoSetR(st, ev)
      [] ev.op = "rename" -> DoRename(st, ev)
      [] ev.op = "mutate" -> DoMutate(st, ev)
      [] ev.op = "save" -> DoSave(st, ev)
      [] ev.op = "load" -> DoLoad(st, ev)
      [] ev.op = "srd" -> DoSaveRd(st, ev)
      [] ev.op = "lrd" -> DoLoadRd(st, ev)
LJudge(st, ev, trace) ==
    LET r == TLCEval(LDo(st, ev)) IN
    [st |-> TLCEval(Remember(r.st, ev)), bad |-> r.bad \cup AllBad(r.st, ev)]
===============================================================================
