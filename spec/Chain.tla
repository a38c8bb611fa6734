-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* Sampling runs and their storage.                                        *)
(*                                                                         *)
(*   files  backend file -> [chain, lp, hist, starts]: stored steps (each  *)
(*          one point per walker, in terms of the model parameters), their *)
(*          log posteriors, the runs that produced them and the first step *)
(*          of each run                                                    *)
(*   src    where the object reads its chain: a file name, or "mem"        *)
(*   mem    the chain of a run without file                                *)
(*   tune, mode, bfile   of the object; parfix: its calibrated parameters  *)
(*                                                                         *)
(* A run is fresh, resumes, or appends; it may be interrupted after some   *)
(* steps (by an exception, or by the end of its process), and then leaves  *)
(* exactly these steps.                                                    *)
(***************************************************************************)
EXTENDS Sampler

Default == "pm_sampler.h5"
NoRun == [chain |-> <<>>, lp |-> <<>>, hist |-> <<>>, starts |-> <<>>]
HStart == [st |-> "new", par |-> Calib, src |-> "", mem |-> NoRun, tune |-> -1, mode |-> <<>>, bfile |-> "", trans |-> FALSE, seed |-> 0]
CStart(trace) == [h |-> HStart, prior |-> <<>>, data |-> <<>>, R |-> <<>>, files |-> <<>>, seen |-> <<>>, post |-> <<>>]

FileOr(fs, f) == IF f \in DOMAIN fs THEN fs[f] ELSE NoRun
PutF(fs, f, v) == [x \in DOMAIN fs \cup {f} |-> IF x = f THEN v ELSE fs[x]]

\* where a run is stored
Target0(h, ev) ==
    CASE ev.backend = "none" -> "mem"
      [] ev.backend = "default" -> IF h.bfile # "" THEN h.bfile ELSE IF ev.suffix # "" THEN "pm" \o ev.suffix ELSE Default
      [] OTHER -> ev.backend
Steps(ev) == IF ev.stop < 0 THEN ev.n ELSE ev.stop
TuneOf(ev) == IF ev.tune < 0 THEN ev.n \div 5 ELSE ev.tune
SeedOf(h, ev) == IF ev.seed < 0 THEN h.seed ELSE ev.seed
LastN(q, n) == IF n >= Len(q) THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
Flat(w) == FoldSeq(LAMBDA s, acc : acc \o s, <<>>, w)

\* the log posterior of a point
PostAt(st, v, temp) ==
    LET lp == LgOf(st.prior, v)
        p == With(Calib, st.prior, v)
    IN  IF lp = NegInf THEN NegInf
        ELSE IF Accept(p) # "ok" THEN "nan"
        ELSE LET M == TLCEval(Mats(PModel(p)))
                 sol == TLCEval(Solve(M))
                 cur == [M |-> M, sol |-> sol]
             IN  RAdd(lp, RMul(temp, LogLik(LinSys(cur, p, st.R), st.data)))
InitVal(q) == CASE q.name = "phi_pi" /\ q.form = 6 -> "1.8" [] q.name = "s_u" /\ q.form = 6 -> "0.5" [] q.name = "th" /\ q.form = 6 -> "0.65"
                [] q.name = "s_z" /\ q.form = 6 -> "0.4" [] q.name = "rho" /\ q.form = 6 -> "0.55" [] OTHER -> Calib[q.name]
InitVec(prior) == [i \in DOMAIN prior |-> InitVal(prior[i])]
MeanVec(prior) == [i \in DOMAIN prior |-> MeanOf(prior[i])]
\* around which point the walkers start if no points are given
Centre(st, ev) == IF RLt(ev.temp, "1.0") THEN MeanVec(st.prior) ELSE IF st.h.mode = <<>> THEN InitVec(st.prior) ELSE st.h.mode

NearV(v, w, tol) == \A j \in DOMAIN v : RLeq(RAbs(RSub(v[j], w[j])), RMul(tol, RMax("1e-3", RAbs(w[j]))))
NearS(s, q, tol) == Len(s) = Len(q) /\ \A w \in DOMAIN s : NearV(s[w], q[w], tol)

\* the key of the steps a run adds
RunKey(st, ev, old) == <<ev.n, ev.stop, SeedOf(st.h, ev), ev.temp, ev.move, IF ev.mode = "resume" THEN <<>> ELSE ev.start, old.hist, st.h.trans>>

RunBad(st, ev, f, old) ==
    LET obs == IF f = "mem" THEN ev.mem ELSE FileOr(ev.files, f)
        n == Steps(ev)
        no == Len(old.chain)
        whole == Len(obs.chain) = no + n /\ Len(obs.lp) = no + n
        new == SubSeq(obs.chain, no + 1, no + n)
        nlp == SubSeq(obs.lp, no + 1, no + n)
        nw == IF ev.mode = "resume" THEN Len(old.chain[no]) ELSE ev.nw
        wid == \A t \in DOMAIN new : Len(new[t]) = nw /\ Len(nlp[t]) = nw /\ \A w \in DOMAIN new[t] : Len(new[t][w]) = Len(st.prior)
        pts == {<<new[t][w], nlp[t][w]>> : <<t, w>> \in (IF n = 0 THEN {} ELSE {1, n}) \X (1..nw)}
        far == {q \in pts : LET r == PostAt(st, q[1], ev.temp) IN r # "nan" /\ ~RClose(q[2], r, "1e-6")}
        same == SelectSeq(st.seen, LAMBDA q : q[1] = RunKey(st, ev, old))
        begin == IF ev.mode = "resume" THEN old.chain[no] ELSE ev.start
        others == {g \in DOMAIN st.files : g # f /\ g # "mem"}
    IN  IF ~whole THEN {<<"C15", "number of stored steps", f, Len(obs.chain), no + n>>}
        ELSE IF ~wid THEN {<<"C15", "shape of the stored steps">>}
        ELSE (IF SubSeq(obs.chain, 1, no) = old.chain /\ SubSeq(obs.lp, 1, no) = old.lp THEN {} ELSE {<<"C15", "earlier steps were changed", ev.mode>>})
             \cup {<<"C15", "stored log posterior", q[1], q[2], PostAt(st, q[1], ev.temp)>> : q \in far}
             \cup (IF \A i \in DOMAIN same : same[i][2] = <<new, nlp>> THEN {} ELSE {<<"C15", "equal seeds give different chains">>})
             \cup (IF ev.move = "tiny"
                   THEN (IF \A t \in 2..n : NearS(new[t], new[t - 1], "1e-3") THEN {} ELSE {<<"C15", "a step does not follow from the one before">>})
                        \cup (IF n = 0 THEN {}
                              ELSE IF ev.mode = "resume" \/ ev.p0 = "given"
                              THEN (IF NearS(new[1], begin, "1e-3") THEN {} ELSE {<<"C15", "does not start where it should", ev.mode, new[1], begin>>})
                              ELSE (IF \A w \in 1..nw : NearV(new[1][w], Centre(st, ev), "0.02") THEN {} ELSE {<<"C15", "does not start around the best known point", new[1], Centre(st, ev)>>}))
                   ELSE {})
             \cup (IF \A g \in others : g \in DOMAIN ev.files /\ ev.files[g].chain = st.files[g].chain /\ ev.files[g].lp = st.files[g].lp
                   THEN {} ELSE {<<"C15", "another file was changed">>})
\* the steps whose posterior is highest
Best(w, l) == LET fw == Flat(w)  fl == Flat(l) IN {fw[i] : i \in {i \in DOMAIN fw : \A j \in DOMAIN fl : RLeq(fl[j], fl[i])}}

JudgeRun(st, ev) ==
    LET h == st.h
        f == Target0(h, ev)
        old == IF ev.mode = "fresh" THEN NoRun ELSE FileOr(st.files, f)
        died == ev.stop >= 0
        obs == IF f = "mem" THEN Opt3(ev, "mem", NoRun) ELSE FileOr(ev.files, f)
        key == RunKey(st, ev, old)
        rec == [chain |-> obs.chain, lp |-> obs.lp, hist |-> Append(old.hist, key), starts |-> Append(old.starts, Len(old.chain) + 1)]
        bad == TLCEval(RunBad(st, ev, f, old))
        win == LastN(rec.chain, TuneOf(ev))
        wlp == LastN(rec.lp, TuneOf(ev))
        h1 == IF died /\ ev.how = "kill" THEN h
              ELSE [h EXCEPT !.tune = TuneOf(ev), !.bfile = IF ev.backend \in {"none", "default"} THEN @ ELSE ev.backend,
                             !.src = IF died THEN @ ELSE f, !.mem = IF died \/ f # "mem" THEN @ ELSE rec,
                             !.mode = IF died \/ ~REq(ev.temp, "1.0") THEN @ ELSE ev.mode_x, !.st = "moved"]
    IN  IF ~ev.ok THEN [st |-> st, bad |-> {<<"C15", "run failed", ev.exc, ev.msg>>}]
        ELSE [st |-> [st EXCEPT !.h = h1, !.files = IF f = "mem" THEN @ ELSE PutF(@, f, rec),
                                !.seen = Append(@, <<key, <<SubSeq(obs.chain, Len(old.chain) + 1, Len(obs.chain)), SubSeq(obs.lp, Len(old.chain) + 1, Len(obs.lp))>> >>)],
              bad |-> bad \cup (IF bad = {} /\ ~died /\ REq(ev.temp, "1.0") /\ ~(\E b \in TLCEval(Best(win, wlp)) : VClose(b, ev.mode_x, "1e-12"))
                                THEN {<<"C15", "mode is not the best of the last steps", ev.mode_x>>} ELSE {})]

-----------------------------------------------------------------------------
(* What the object reports about its chain. *)
Source(st) == LET h == st.h IN
    IF h.src = "mem" THEN h.mem ELSE IF h.src # "" THEN FileOr(st.files, h.src)
    ELSE FileOr(st.files, IF h.bfile # "" THEN h.bfile ELSE Default)
Win(st) == LastN(Source(st).chain, st.h.tune)
WinLp(st) == LastN(Source(st).lp, st.h.tune)
ColMean(pts, j) == RDiv(VSum([i \in DOMAIN pts |-> pts[i][j]]), RNum(Len(pts)))
MeanV(pts) == [j \in DOMAIN pts[1] |-> ColMean(pts, j)]
Cov2(pts, d) ==
    LET m == TLCEval(MeanV(pts)) IN
    [a \in DOMAIN m |-> [b \in DOMAIN m |-> RDiv(VSum([i \in DOMAIN pts |-> RMul(RSub(pts[i][a], m[a]), RSub(pts[i][b], m[b]))]), RNum(Len(pts) - d))]]
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
CountNear(q, x) == Cardinality({i \in DOMAIN q : VClose(q[i], x, "1e-12")})
TopOf(q) == q[CHOOSE i \in DOMAIN q : \A j \in DOMAIN q : RLeq(q[j], q[i])]
Changes(s) == [w \in DOMAIN s.chain[1] |-> Cardinality({t \in 2..Len(s.chain) : ~(\E k \in DOMAIN s.starts : s.starts[k] = t) /\ s.chain[t][w] # s.chain[t - 1][w]})]
Ceil60(nw) == (60 + nw - 1) \div nw

QueryBad(st, ev) ==
    LET s == TLCEval(Source(st))
        w == TLCEval(Win(st))
        fw == TLCEval(Flat(w))
        fl == TLCEval(Flat(WinLp(st)))
        file == IF Has(ev, "file") THEN FileOr(st.files, ev.file) ELSE s
        none == file.chain = <<>>
    IN  CASE none /\ ev.q \notin {"par", "tune"} -> IF ev.ok THEN {<<"C15", "answer without a chain", ev.q>>} ELSE {}
          [] ~none /\ ~ev.ok /\ ~(ev.q = "sample" /\ (Ceil60(Len(s.chain[1])) > Len(s.chain) \/ ev.size > Ceil60(Len(s.chain[1])) * Len(s.chain[1])))
             -> IF ev.q = "par" /\ ev.which = "mode" /\ st.h.mode = <<>> THEN {} ELSE {<<"C15", "query failed", ev.q, ev.exc, ev.msg>>}
          [] ev.q = "sample" /\ ~ev.ok -> {}
          [] ev.q = "chain" -> (IF ev.ret = (IF ev.flat THEN Flat(file.chain) ELSE file.chain) THEN {} ELSE {<<"C15", "chain">>})
                               \cup (IF ev.lp = (IF ev.flat THEN Flat(file.lp) ELSE file.lp) THEN {} ELSE {<<"C15", "log posteriors of the chain">>})
          [] ev.q = "acc" -> LET c == Changes(s)  n == Len(s.chain) IN
                IF Len(ev.ret) = Len(s.chain[1]) /\ \A i \in DOMAIN ev.ret :
                       LET a == RMul(ev.ret[i], RNum(n)) IN RLeq(RSub(RNum(c[i]), "1e-6"), a) /\ RLeq(a, RAdd(RNum(c[i] + Len(s.starts)), "1e-6"))
                THEN {} ELSE {<<"C15", "acceptance fraction", ev.ret, c>>}
          [] ev.q = "tune" -> IF ev.ret = st.h.tune THEN {} ELSE {<<"C15", "tune", ev.ret, st.h.tune>>}
          [] ev.q = "info" -> IF ev.ret = <<Len(st.prior), Len(s.chain[1]), st.h.tune, Len(s.chain)>> THEN {} ELSE {<<"C15", "info", ev.ret>>}
          [] ev.q = "par" /\ ev.which \in {"mode", "best"} ->
                LET x == IF st.h.mode = <<>> THEN InitVec(st.prior) ELSE st.h.mode IN
                IF ~ev.ok THEN (IF st.h.mode = <<>> /\ ev.which = "mode" THEN {} ELSE {<<"C15", "query failed", ev.exc, ev.msg>>})
                ELSE IF ev.which = "mode" /\ st.h.mode = <<>> THEN {<<"C15", "mode without a run">>}
                ELSE (IF VClose(ev.ret, x, "1e-12") THEN {} ELSE {<<"C15", ev.which, ev.ret, x>>})
                     \cup (IF SamePar(ToPar(ev.full), With(Calib, st.prior, x)) THEN {} ELSE {<<"C15", "all parameters", ev.which>>})
          [] ev.q = "par" /\ none -> IF ev.ok THEN {<<"C15", "answer without a chain", ev.which>>} ELSE {}
          [] ev.q = "par" /\ ev.which = "post_mean" ->
                (IF VClose(ev.ret, MeanV(fw), "1e-9") THEN {} ELSE {<<"C15", "posterior mean", ev.ret, MeanV(fw)>>})
                \cup (IF SamePar(ToPar(ev.full), With(Calib, st.prior, MeanV(fw))) THEN {} ELSE {<<"C15", "all parameters", ev.which>>})
          [] ev.q = "par" /\ ev.which = "posterior" ->
                (IF Len(ev.ret) = ev.n THEN {} ELSE {<<"C15", "number of draws">>})
                \cup {<<"C15", "draw is not one of the last steps", ev.ret[i]>> : i \in {i \in DOMAIN ev.ret : CountNear(fw, ev.ret[i]) = 0}}
                \cup (IF ev.again = ev.ret THEN {} ELSE {<<"C15", "equal seeds give different draws">>})
                \cup {<<"C15", "all parameters of a draw", i>> : i \in {i \in DOMAIN ev.full : ~SamePar(ToPar(ev.full[i]), With(Calib, st.prior, ev.ret[i]))}}
          [] ev.q = "sample" ->
                LET rec == TLCEval(Flat(LastN(s.chain, Ceil60(Len(s.chain[1]))))) IN
                (IF Len(ev.ret) = ev.size THEN {} ELSE {<<"C15", "size of the sample">>})
                \cup (IF \A i \in DOMAIN ev.ret : LET c == CountNear(rec, ev.ret[i]) IN c > 0 /\ CountNear(ev.ret, ev.ret[i]) <= c THEN {} ELSE {<<"C15", "sample is not of recent steps, without replacement">>})
          [] ev.q = "summary" ->
                (IF ev.rows = [i \in DOMAIN st.prior |-> st.prior[i].name] THEN {} ELSE {<<"C15", "summary: rows">>})
                \cup (IF VClose(ev.mean, MeanV(fw), "1e-9") THEN {} ELSE {<<"C15", "summary: mean", ev.mean>>})
                \cup (IF \A j \in DOMAIN ev.sd : RClose(RMul(ev.sd[j], ev.sd[j]), Cov2(fw, 0)[j][j], "1e-7") THEN {} ELSE {<<"C15", "summary: standard deviation">>})
                \cup (IF \E b \in Best(w, WinLp(st)) : VClose(b, ev.mode, "1e-12") THEN {} ELSE {<<"C15", "summary: mode", ev.mode>>})
          [] ev.q = "csv" -> IF ev.rows = [i \in DOMAIN st.prior |-> st.prior[i].name] /\ Len(ev.ret) = Len(fw) /\ \A i \in DOMAIN fw : VClose(ev.ret[i], fw[i], "1e-12")
                             THEN {} ELSE {<<"C15", "exported draws">>}
          [] ev.q = "mdd" -> LET r == RAdd(RMul("0.5", RAdd(RMul(RNum(Len(st.prior)), Log2Pi), MLogDet(Cov2(fw, 1)))), TopOf(fl)) IN
                IF RClose(ev.ret, r, "1e-5") THEN {} ELSE {<<"C15", "marginal data density", ev.ret, r>>}
\* a query must not depend on earlier ones, nor write
FilesBad(st, ev) == IF \A g \in DOMAIN st.files : g \in DOMAIN ev.files /\ ev.files[g].chain = st.files[g].chain /\ ev.files[g].lp = st.files[g].lp
                    THEN {} ELSE {<<"C15", "stored steps were changed by", ev.op>>}

CJudge(st, ev, trace) ==
    CASE ev.op = "read" -> [st |-> [st EXCEPT !.prior = ev.prior, !.h = HStart], bad |-> IF ev.ok THEN {} ELSE {<<"C15", "not readable", ev.exc, ev.msg>>}]
      [] ev.op = "prep" -> [st |-> IF ev.ok THEN [st EXCEPT !.data = ev.Z, !.R = ev.R, !.h.trans = ev.trans, !.h.seed = ev.seed, !.h.st = "prep"] ELSE st,
                            bad |-> IF ev.ok THEN {} ELSE {<<"C15", "preparation failed", ev.exc, ev.msg>>}]
      [] ev.op = "run" -> JudgeRun(st, ev)
      [] ev.op = "query" -> [st |-> st, bad |-> QueryBad(st, ev) \cup FilesBad(st, ev)]
      [] ev.op = "set" -> [st |-> st, bad |-> FilesBad(st, ev)]
      \* the model is read again, from its file: only files remain
      [] ev.op = "reopen" -> [st |-> [st EXCEPT !.h = [HStart EXCEPT !.trans = ev.trans, !.seed = ev.seed, !.st = "prep"]],
                              bad |-> IF ev.ok THEN FilesBad(st, ev) ELSE {<<"C15", "reading again failed", ev.exc, ev.msg>>}]
      \* saved and loaded: the object's settings remain, its chain is that of the file
      [] ev.op = "reload" -> [st |-> [st EXCEPT !.h = [@ EXCEPT !.src = "", !.mem = NoRun]],
                              bad |-> IF ev.ok THEN FilesBad(st, ev) ELSE {<<"C15", "saving and loading failed", ev.exc, ev.msg>>}]
===============================================================================
