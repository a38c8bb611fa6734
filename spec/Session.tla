------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session with one model (ParModel): the state machine of a pydsge      *)
(* model object as its user sees it.                                       *)
(*                                                                         *)
(*   par   the reported parameters          L, K  search horizon           *)
(*   cur   laws of motion at (par, L, K)    data  loaded data (or <<>>)    *)
(*   est   settings of the prepared estimation, or [kind |-> "none"]       *)
(*   memo  values of the posterior seen so far (nonlinear filter)          *)
(*                                                                         *)
(* Every operation is an event ev with its arguments and the observed      *)
(* result; Judge gives the next state and the violated clauses.  ev.dig    *)
(* is a digest of the behaviour taken after the operation.                 *)
(***************************************************************************)
EXTENDS ParModel, Kalman, Ensemble, Effects, Priors

PTol == "1e-9"
Has(ev, f) == f \in DOMAIN ev
Opt3(ev, f, d) == IF f \in DOMAIN ev THEN ev[f] ELSE d

FreshM(m, L, K) ==
    LET M == TLCEval(Mats(m))
        sol == TLCEval(Solve(M))
        tab == IF sol.kind = "unique" THEN Table(M, m.xbar, [P |-> sol.P, Q |-> sol.Q, g |-> sol.g], L, K) ELSE <<>>
    IN  [m |-> m, M |-> M, sol |-> sol, L |-> L, K |-> K, tab |-> tab, wc |-> WellConditioned(tab),
         rt |-> IF tab = <<>> THEN <<>> ELSE RuleTable(M, tab, L, K), hist |-> <<>>, eh |-> <<>>]
FreshLK(p, L, K) == FreshM(PModel(p), L, K)

NoEst == [kind |-> "none"]
SStart == [par |-> Calib, L |-> 3, K |-> 17, cur |-> FreshLK(Calib, 3, 17), data |-> <<>>, est |-> NoEst, memo |-> <<>>, zero |-> FALSE]
\* the named sets of the model at hand (zero: its initial value of rho_u is zero)
NamedOf(st, s) == IF st.zero /\ s \in {"init", "best"} THEN [Named(s) EXCEPT !["rho_u"] = "0.0"] ELSE Named(s)

SamePar(p, q) == \A n \in ParSet : RClose(p[n], q[n], PTol)
VarNames == <<"y", "Pi", "dy", "r", "u", "z", "vr">>
EVec(v) == [s \in Range(Shocks) |-> v[CHOOSE i \in 1..Len(Shocks) : Shocks[i] = s]]
XZero == [v \in Range(VarNames) |-> "0.0"]
RecClose(a, b) == CloseNames(VarNames, a, b)

\* all parameters that a full or an estimated-only vector stands for
AsPar(p, v) == IF Len(v) = Len(ParNames) THEN ToPar(v) ELSE WithEst(p, v)
\* "ok", "fail", "unclear": are these parameters accepted?
Accept(p) ==
    LET d == Derived(p) IN
    IF \E n \in DOMAIN d : ~RIsNum(d[n]) THEN "fail"
    ELSE IF RGt(d.x_bar, "1e-9") THEN "fail"
    ELSE IF RGt(d.x_bar, "-1e-9") THEN "unclear"
    ELSE LET k == PSolve(p).kind IN IF k = "unique" THEN "ok" ELSE IF k = "unclear" THEN "unclear" ELSE "fail"

WithPar(st, p, L, K) ==
    IF p = st.par /\ L = st.L /\ K = st.K THEN st
    ELSE [st EXCEPT !.par = p, !.L = L, !.K = K, !.cur = TLCEval(FreshLK(p, L, K))]

-----------------------------------------------------------------------------
(* One observed period from x0 with shocks e, judged under tag. *)
PeriodBad(tag, cur, x0, e, x, l, k, flag, lin, pre) ==
    IF ~cur.wc THEN {}
    ELSE
    LET c == [cur EXCEPT !.hist = <<x0>>]
        allowed == TLCEval(Allowed(c, e, lin, pre))
    IN  (IF \E a \in allowed : a[1] = l /\ a[2] = k /\ (flag < 0 \/ a[3] = flag) THEN {}
         ELSE {<<tag, "durations", <<l, k, flag>>, allowed>>})
        \cup (IF ~InTable(cur, l, k) THEN {<<tag, "durations out of range">>}
              ELSE IF CloseRec(cur.m, VarsOf(cur.m, Move(Law(cur.tab, l, k), Lag(c), ShockVec(cur.m, e))), x) THEN {}
              ELSE {<<tag, "state">>})

-----------------------------------------------------------------------------
(* Digest: steps from zero (nonlinear, nonlinear, linear), observables of   *)
(* the first, standard deviations of the shocks, parameters.                *)
LinSys(cur, p, R) == [P |-> cur.sol.P, Q |-> cur.sol.Q, H |-> ObsMat(cur.M), c |-> ObsConst(p), std |-> PStd(p), R |-> R]

StepsBad(tag, cur, dg) ==
    PeriodBad(tag, cur, XZero, EVec(dg.s1.e), dg.s1.x, dg.s1.l, dg.s1.k, dg.s1.flag, FALSE, <<>>)
    \cup PeriodBad(tag, cur, dg.s1.x, EVec(dg.s2.e), dg.s2.x, dg.s2.l, dg.s2.k, dg.s2.flag, FALSE, <<>>)
    \cup PeriodBad(tag, cur, dg.s2.x, EVec(dg.s3.e), dg.s3.x, dg.s3.l, dg.s3.k, dg.s3.flag, TRUE, <<>>)

\* draws of the ensemble filter: those of the initial states come with the event (they depend on the number of states),
\* shocks and measurement errors share theirs
EnsSys(cur, p, S, R) == [cur |-> cur, S |-> S, H |-> ObsMat(cur.M), c |-> ObsConst(p), std |-> PStd(p), R |-> R]
EnsU(st, ev) == [x |-> ev.u0, e |-> st.est.U, m |-> st.est.U]

DigestBad(st, ev) ==
    IF ~Has(ev, "dig") THEN {}
    ELSE IF ~ev.dig.ok THEN {<<"C06", "model unusable afterwards", ev.dig.exc, ev.dig.msg>>}
    ELSE LET dg == ev.dig
             p == ToPar(dg.par)
             moved == ~SamePar(p, st.par)
             cur == TLCEval(IF moved THEN FreshLK(p, st.L, st.K) ELSE st.cur)
         IN  (IF moved THEN {<<"C06", "parameters changed", [n \in {n \in ParSet : ~RClose(p[n], st.par[n], PTol)} |-> <<st.par[n], p[n]>>]>>} ELSE {})
             \cup (IF cur.tab = <<>> THEN {<<"C06", "reported parameters have no solution">>}
                   ELSE StepsBad("C06", cur, dg)
                        \cup (IF VClose(dg.obs, PObs(p, dg.s1.x), Tol) THEN {} ELSE {<<"C06", "observation mapping">>})
                        \cup (IF MClose(dg.cov, Diag(PStd(p)), Tol) THEN {} ELSE {<<"C06", "shock covariance", dg.cov>>})
                        \cup (IF Has(dg, "xbar") => RClose(dg.xbar, cur.m.xbar, Tol) THEN {} ELSE {<<"C06", "bound", dg.xbar>>})
                        \cup (IF ~Has(dg, "ll") THEN {}
                              ELSE IF st.est.kind = "nl"
                              THEN (IF ~Has(dg, "u0") THEN {}
                                    ELSE LET en == TLCEval(Ens(EnsSys(cur, p, dg.S, dg.R), EnsU(st, dg), st.data))
                                         IN  IF ~cur.wc \/ ~en.ok \/ RClose(dg.ll, en.ll, "1e-6") THEN {} ELSE {<<"C06", "nonlinear likelihood at the current parameters", dg.ll, en.ll>>})
                              ELSE IF RClose(dg.ll, LogLik(LinSys(cur, p, dg.R), st.data), Tol) THEN {}
                              ELSE {<<"C06", "likelihood at the current parameters", dg.ll>>}))
Resync(st, ev) ==
    IF Has(ev, "dig") /\ ev.dig.ok /\ ~SamePar(ToPar(ev.dig.par), st.par)
    THEN WithPar(st, ToPar(ev.dig.par), st.L, st.K) ELSE st

-----------------------------------------------------------------------------
(* Setting parameters. *)
Target(st, ev) ==
    CASE ev.how = "name" -> [st.par EXCEPT ![ev.name] = ev.value]
      [] ev.how = "vec" -> AsPar(st.par, ev.vec)
      [] ev.how = "named" -> NamedOf(st, ev.name)
      [] ev.how = "none" -> st.par
NewL(st, ev) == IF Opt3(ev, "lmax", -1) < 0 THEN st.L ELSE Horizon(ev.lmax, Opt3(ev, "kmax", -1))[1]
NewK(st, ev) == IF Opt3(ev, "kmax", -1) < 0 THEN st.K ELSE ev.kmax

JudgeSet(st, ev) ==
    IF ev.how = "bad"
    THEN [st |-> st, bad |-> IF ev.ok THEN {<<"C07", "accepted", ev.what>>} ELSE {}]
    ELSE LET p == TLCEval(Target(st, ev))
             a == Accept(p)
             nxt == TLCEval(WithPar(st, p, NewL(st, ev), NewK(st, ev)))
         IN  IF ~ev.ok
             THEN [st |-> st, bad |-> IF a = "ok" THEN {<<"C07", "rejected", ev.exc, ev.msg>>, <<"C24", "rejected", ev.exc, ev.msg>>} ELSE {}]
             ELSE IF a = "fail" THEN [st |-> st, bad |-> {<<"C24", "accepted without unique stable solution or with positive bound">>}]
             ELSE IF nxt.cur.tab = <<>> THEN [st |-> st, bad |-> {}]
             ELSE [st |-> nxt,
                   bad |-> (IF VClose(ev.ret, ParVec(p), PTol) THEN {} ELSE {<<"C07", "returned by the setting", ev.ret, ParVec(p)>>})
                           \cup (IF Has(ev, "dig") /\ ev.dig.ok /\ ~SamePar(ToPar(ev.dig.par), p)
                                 THEN {<<"C07", "parameters after the setting", [n \in {n \in ParSet : ~RClose(ToPar(ev.dig.par)[n], p[n], PTol)} |-> <<p[n], ToPar(ev.dig.par)[n]>>]>>} ELSE {})
                           \* the accepted solution is the stable one
                           \cup (IF Has(ev, "dig") /\ ev.dig.ok /\ Range(VarNames) \subseteq DOMAIN ev.dig.s3.x
                                 THEN {<<"C24", "linear response is not the stable solution">> : c \in PeriodBad("C24", nxt.cur, ev.dig.s2.x, EVec(ev.dig.s3.e), ev.dig.s3.x, ev.dig.s3.l, ev.dig.s3.k, ev.dig.s3.flag, TRUE, <<>>)}
                                 ELSE {})]

(* Reading parameters. *)
Round5(x) == "5e-6"
DictClose(d, f, names) == DOMAIN d = Range(names) /\ \A n \in DOMAIN d : RLeq(RAbs(RSub(d[n], f[n])), "6e-6")
GetExpected(st, ev) ==
    CASE ev.what = "name" -> <<st.par[ev.name]>>
      [] ev.what = "derived" -> <<Derived(st.par)[ev.name]>>
      [] ev.what = "full" -> ParVec(st.par)
      [] ev.what = "est" -> EstVec(st.par)
      [] ev.what = "named" -> ParVec(NamedOf(st, ev.name))
      [] ev.what = "namedest" -> EstVec(NamedOf(st, ev.name))
      [] ev.what = "nparname" -> <<AsPar(st.par, ev.vec)[ev.name]>>
      [] ev.what = "nparderived" -> <<Derived(AsPar(st.par, ev.vec))[ev.name]>>
      [] ev.what = "nparset" -> LET i == CHOOSE i \in 1..Len(EstNames) : TRUE
                                    names == IF Len(ev.vec) = Len(ParNames) THEN ParNames ELSE EstNames
                                IN  [j \in 1..Len(names) |-> IF names[j] = ev.name THEN ev.value ELSE ev.vec[j]]
JudgeGet(st, ev) ==
    IF ev.what = "bad" THEN (IF ev.ok THEN {<<"C07", "returned for an unknown name", ev.name>>} ELSE {})
    ELSE IF ~ev.ok THEN {<<"C07", "read failed", ev.what, ev.exc, ev.msg>>}
    ELSE IF ev.what = "dict"
    THEN (IF DictClose(ev.ret[1], st.par, ParNames) /\ DictClose(ev.ret[2], Derived(st.par), DerNames) THEN {} ELSE {<<"C07", "dictionary", ev.ret>>})
    ELSE IF ev.what = "dictest"
    THEN (IF DictClose(ev.ret, st.par, EstNames) THEN {} ELSE {<<"C07", "dictionary of estimated parameters", ev.ret>>})
    ELSE IF ev.what = "cov"
    THEN (IF MClose(ev.ret, Diag(PStd(IF Has(ev, "vec") THEN AsPar(st.par, ev.vec) ELSE st.par)), PTol) THEN {} ELSE {<<"C07", "covariance", ev.ret>>, <<"C17", "covariance", ev.ret>>})
    ELSE IF VClose(ev.ret, GetExpected(st, ev), PTol) THEN {}
    ELSE {<<IF ev.what = "derived" /\ t = "C17" THEN "C17" ELSE "C07", "read", ev.what, ev.ret, GetExpected(st, ev)>> : t \in {"C07", "C17"}}

-----------------------------------------------------------------------------
(* Impulse responses, one parameter vector or a batch. *)
RECURSIVE IrfPeriods(_, _, _, _, _, _, _)
IrfPeriods(cur, ev, X, L, K, t, acc) ==       \* acc: [x, lk]
    IF t = ev.T THEN {}
    ELSE LET e == TLCEval(ShockAt(cur.m, ev.shocks, t))
             lin == Opt3(ev, "linear", FALSE)
             pre == IF lin THEN <<>> ELSE Prescribed(ev.shocks, Opt3(ev, "setk", <<>>), acc.lk, t, NoShock(cur.m, e))
         IN  PeriodBad("C04", cur, acc.x, e, X[t + 1], L[t + 1], K[t + 1], -1, lin, pre)
             \cup IrfPeriods(cur, ev, X, L, K, t + 1, [x |-> X[t + 1], lk |-> <<L[t + 1], K[t + 1]>>])
IrfOne(cur, ev, r) ==
    IF r.nan THEN {<<"C04", "marked as unsolvable">>}
    ELSE IF Len(r.X) # ev.T THEN {<<"C04", "length">>}
    ELSE IrfPeriods(cur, ev, r.X, r.L, r.K, 0, [x |-> IF Has(ev, "x0") THEN ev.x0 ELSE XZero, lk |-> <<0, 0>>])
         \cup (IF Opt3(ev, "linear", FALSE) /\ r.flag # 0 THEN {<<"C04", "flag in linear mode">>} ELSE {})
JudgeIrfB(st, ev) ==
    LET L == NewL(st, ev)
        K == NewK(st, ev)
        members == IF Has(ev, "pars") THEN ev.pars ELSE <<>>
        single == ~Has(ev, "pars")
        pre == Opt3(ev, "setk", <<>>)
        beyond == pre # <<>> /\ (pre[1] > st.L \/ pre[2] > st.K)
        \* a positive bound is an error of the call, not a member without solution
        positive == \E i \in 1..Len(members) : LET d == Derived(AsPar(st.par, members[i])) IN ~RIsNum(d.x_bar) \/ RGt(d.x_bar, "-1e-9")
    IN  IF ~ev.ok THEN (IF beyond \/ positive THEN {} ELSE {<<"C04", "exception", ev.exc, ev.msg>>})
        ELSE IF single THEN IrfOne(st.cur, ev, ev.res[1])
        ELSE IF Len(ev.res) # Len(members) THEN {<<"C04", "number of members">>}
        ELSE UNION {LET p == AsPar(st.par, members[i])
                        a == Accept(p)
                        r == ev.res[i]
                    IN  IF a = "fail" THEN (IF r.nan /\ r.flag # 0 THEN {} ELSE {<<"C04", "unsolvable member not marked", i>>})
                        ELSE IF a = "unclear" THEN {}
                        ELSE {c \o <<"member", i>> : c \in IrfOne(TLCEval(FreshLK(p, L, K)), ev, r)}
                    : i \in 1..Len(members)}
        \cup (IF ev.same THEN {} ELSE {<<"C04", "arguments changed">>})

-----------------------------------------------------------------------------
(* Simulation of a sample.  ev.members[i] = [par, x0, eps], ev.mask (rows   *)
(* of reals, "nan" = untouched), ev.oper in {"mul", "add", "rep"}.          *)
Masked(ev, t, s, e) ==
    IF ~Has(ev, "mask") THEN e
    ELSE LET m == ev.mask[t][s] IN
         IF RIsNaN(m) THEN e
         ELSE CASE ev.oper = "mul" -> RMul(m, e) [] ev.oper = "add" -> RAdd(m, e) [] ev.oper = "rep" -> m
EpsAt(ev, mem, t) == EVec([s \in 1..Len(Shocks) |-> Masked(ev, t, s, mem.eps[t][s])])
FlagOf(cur, x0, e) == {a[3] : a \in Allowed([cur EXCEPT !.hist = <<x0>>], e, FALSE, <<>>)}
SimOne(tag, cur, ev, mem, r) ==
    LET T == Len(mem.eps)
        lin == Opt3(ev, "linear", FALSE)
        flags == [t \in 1..T |-> IF lin THEN {0} ELSE FlagOf(cur, r.X[t], EpsAt(ev, mem, t))]
    IN  IF Len(r.X) # T + 1 \/ Len(r.L) # T \/ Len(r.K) # T THEN {<<tag, "length">>}
        ELSE (IF RecClose(r.X[1], mem.x0) THEN {} ELSE {<<tag, "initial state">>})
             \cup UNION {PeriodBad(tag, cur, r.X[t], EpsAt(ev, mem, t), r.X[t + 1], r.L[t], r.K[t], -1, lin, <<>>) : t \in 1..T}
             \cup (IF (\E t \in 1..T : \A f \in flags[t] : f # 0) /\ r.flag = 0 THEN {<<tag, "missing flag">>} ELSE {})
             \cup (IF (\A t \in 1..T : flags[t] = {0}) /\ r.flag # 0 THEN {<<tag, "flag">>} ELSE {})
JudgeSim(st, ev) ==
    LET L == NewL(st, ev)
        K == NewK(st, ev)
        bad(i) == Accept(AsPar(st.par, ev.members[i].par)) # "ok"
    IN  IF ~ev.ok THEN (IF \E i \in 1..Len(ev.members) : bad(i) THEN {} ELSE {<<"C05", "exception", ev.exc, ev.msg>>})
        ELSE IF Len(ev.res) # Len(ev.members) THEN {<<"C05", "number of members">>}
        ELSE UNION {IF bad(i) THEN {}
                    ELSE {c \o <<"member", i>> : c \in SimOne("C05", TLCEval(FreshLK(AsPar(st.par, ev.members[i].par), L, K)), ev, ev.members[i], ev.res[i])}
                    : i \in 1..Len(ev.members)}
             \cup (IF ev.same THEN {} ELSE {<<"C05", "inputs changed">>})
             \cup (IF ev.maskok THEN {} ELSE {<<"C05", "empty mask of the model">>})

-----------------------------------------------------------------------------
(* Observables. ev.X: sequence of series (sequences of states), ev.Z: the   *)
(* same of observables; ev.pars: parameters per series, if given.           *)
JudgeObs(st, ev) ==
    IF ~ev.ok THEN {<<"C21", "exception", ev.exc, ev.msg>>}
    ELSE IF Len(ev.Z) # Len(ev.X) THEN {<<"C21", "shape">>}
    ELSE UNION {LET p == IF Has(ev, "pars") THEN AsPar(st.par, ev.pars[i]) ELSE st.par IN
                IF Len(ev.Z[i]) # Len(ev.X[i]) THEN {<<"C21", "shape">>}
                ELSE IF \A t \in 1..Len(ev.X[i]) : VClose(ev.Z[i][t], PObs(p, ev.X[i][t]), Tol) THEN {} ELSE {<<"C21", "observables", i>>}
                : i \in 1..Len(ev.X)}
         \cup (IF Has(ev, "cols") /\ ev.cols # ObsNames THEN {<<"C21", "columns", ev.cols>>} ELSE {})
Pos(seq, x) == (CHOOSE i \in 1..Len(seq) : seq[i] = x) - 1
\* ev.names looked up; ev.vv / ev.oo is the order of states / observables as reported by the columns of results
JudgeIx(st, ev) ==
    LET order == IF ev.kind = "v" THEN ev.vv ELSE ObsNames
        unknown == {i \in 1..Len(ev.names) : ev.names[i] \notin Range(order)}
    IN  IF unknown # {} /\ ~Opt3(ev, "dontfail", FALSE) THEN (IF ev.ok THEN {<<"C21", "unknown name accepted">>} ELSE {})
        ELSE IF ~ev.ok THEN {<<"C21", "lookup failed", ev.exc, ev.msg>>}
        ELSE LET known == SelectSeq(ev.names, LAMBDA x : x \in Range(order)) IN
             IF ev.ret = [i \in 1..Len(known) |-> Pos(order, known[i])] THEN {} ELSE {<<"C21", "lookup", ev.ret>>}

-----------------------------------------------------------------------------
(* Expected trajectories of the constraint. *)
\* -1: not given; a trajectory needs both durations, a map takes a missing l as 0 next to a given k
TrajLKs(lk, found) == IF lk[1] < 0 \/ lk[2] < 0 THEN found ELSE {lk}
KmapLKs(lk, found) == IF lk[2] >= 0 THEN {<<IF lk[1] < 0 THEN 0 ELSE lk[1], lk[2]>>}
                      ELSE {<<IF lk[1] > 0 THEN lk[1] ELSE a[1], a[2]>> : a \in found}
TrajBad(st, ev) ==
    LET c == [st.cur EXCEPT !.hist = <<ev.x0>>]
        e == EVec(ev.e)
        es == ShockVec(st.cur.m, e)
        lks == TrajLKs(IF Has(ev, "lk") THEN ev.lk ELSE <<-1, -1>>, {<<a[1], a[2]>> : a \in Allowed(c, e, FALSE, <<>>)})
        ref(lk) == RulePath(st.cur.M, st.cur.tab, lk[1], lk[2], Lag(c), es, Len(ev.ret) - 1)
    IN  IF ~ev.ok THEN {<<"C19", "exception", ev.exc, ev.msg>>}
        ELSE (IF Len(ev.ret) < st.L + st.K + 1 THEN {<<"C19", "horizon">>} ELSE {})
             \cup (IF \E lk \in lks : VClose(ev.ret, ref(lk), Tol) THEN {} ELSE {<<"C19", "trajectory", lks, ev.ret>>})
KmapBad(st, ev) ==
    LET c == [st.cur EXCEPT !.hist = <<ev.x0>>]
        e == EVec(ev.e)
        es == ShockVec(st.cur.m, e)
        lks == KmapLKs(IF Has(ev, "lk") THEN ev.lk ELSE <<-1, -1>>, {<<a[1], a[2]>> : a \in Allowed(c, e, FALSE, <<>>)})
        at(l, k) == RSub(RulePath(st.cur.M, st.cur.tab, l, k, Lag(c), es, l + k)[l + k + 1], st.cur.m.xbar)
    IN  IF ~ev.ok THEN {<<"C19", "exception", ev.exc, ev.msg>>}
        ELSE IF Len(ev.ls) > st.L + 1 \/ Len(ev.ks) > st.K + 1 THEN {<<"C19", "map: size">>}
        ELSE IF \E lk \in lks : (\A i \in 1..Len(ev.ls) : RClose(ev.ls[i], at(i - 1, lk[2]), Tol))
                                /\ (\A i \in 1..Len(ev.ks) : RClose(ev.ks[i], at(lk[1], i - 1), Tol))
        THEN {} ELSE {<<"C19", "duration map", lks>>}

-----------------------------------------------------------------------------
(* Estimation: data, posterior, linear filter, extraction. *)
LogPriorVec(v) == VSum([i \in 1..Len(EstNames) |-> LET q == Prior[EstNames[i]] IN LgPrior(q.dist, v[i], q.a, q.b)])
InPrior(v) == \A i \in 1..Len(EstNames) : LET q == Prior[EstNames[i]] IN LgPrior(q.dist, v[i], q.a, q.b) # NegInf

JudgeData(st, ev) ==
    [st |-> IF ev.ok THEN [st EXCEPT !.data = ev.Z] ELSE st, bad |-> IF ev.ok THEN {} ELSE {<<"C10", "data rejected", ev.exc, ev.msg>>}]
JudgePrep(st, ev) ==
    LET lk == IF ev.linear THEN <<2, 0>> ELSE Horizon(Opt3(ev, "lmax", 3), Opt3(ev, "kmax", 16)) IN
    IF ~ev.ok THEN [st |-> st, bad |-> {<<t, "preparation failed", ev.exc, ev.msg>> : t \in {"C10", "C11", "C12", "C06"}}]
    ELSE [st |-> [TLCEval(WithPar(st, PriorMean, lk[1], lk[2])) EXCEPT
                    !.est = [kind |-> IF ev.linear THEN "lin" ELSE "nl", R |-> ev.R, lk |-> lk, seed |-> Opt3(ev, "seed", 0),
                               U |-> Opt3(ev, "U", <<>>)],
                    !.memo = <<>>],
          bad |-> {}]
\* the posterior at an estimated-only vector v (calibrated values elsewhere); reference for the linear filter
PostLin(st, v, temp) ==
    LET lp == LogPriorVec(v)
        p == WithEst(Calib, v)
    IN  IF ~InPrior(v) THEN [kind |-> "val", val |-> NegInf]
        ELSE IF REq(temp, "0.0") THEN [kind |-> "val", val |-> lp]
        ELSE LET a == Accept(p) IN
             IF a = "fail" THEN [kind |-> "val", val |-> NegInf]
             ELSE IF a = "unclear" THEN [kind |-> "any"]
             ELSE [kind |-> "val", val |-> RAdd(lp, RMul(temp, LogLik(LinSys(FreshLK(p, 0, 0), p, st.est.R), st.data)))]
\* the same for the nonlinear filter, if the draws are known
PostNL(st, ev, v, temp) ==
    LET lp == LogPriorVec(v)
        p == WithEst(Calib, v)
    IN  IF ~InPrior(v) \/ REq(temp, "0.0") \/ ~Has(ev, "u0") \/ Accept(p) # "ok" THEN [kind |-> "any"]
        ELSE LET cur == TLCEval(FreshLK(p, st.est.lk[1], st.est.lk[2]))
                 en == TLCEval(Ens(EnsSys(cur, p, ev.S, st.est.R), EnsU(st, ev), st.data))
             IN  IF ~cur.wc \/ ~en.ok THEN [kind |-> "any"]
                 ELSE [kind |-> "val", val |-> RAdd(lp, RMul(temp, en.ll)), bound |-> en.bound]
\* nonlinear filter: a function of (v, temp)
MemoAt(st, v, temp) == SelectSeq(st.memo, LAMBDA q : q[1] = v /\ q[2] = temp)
LprobState(st, v, temp) ==       \* evaluation moves the model to v if it has a solution there
    IF ~InPrior(v) \/ REq(temp, "0.0") \/ Accept(WithEst(Calib, v)) # "ok" THEN st
    ELSE WithPar(st, WithEst(Calib, v), st.est.lk[1], st.est.lk[2])
JudgeLprob(st, ev) ==
    LET temp == Opt3(ev, "temp", "1.0")
        r == PostLin(st, ev.vec, temp)
        seen == MemoAt(st, ev.vec, temp)
        base == MemoAt(st, ev.vec, "1.0")
        nxt == TLCEval(LprobState(st, ev.vec, temp))
        rec(s) == IF st.est.kind = "nl" /\ seen = <<>> THEN [s EXCEPT !.memo = Append(@, <<ev.vec, temp, ev.ret>>)] ELSE s
    IN  IF ~ev.ok THEN [st |-> st, bad |-> {<<"C11", "exception", ev.exc, ev.msg>>}]
        ELSE [st |-> TLCEval(rec(nxt)),
              bad |-> (IF st.est.kind = "lin"
                       THEN (IF r.kind = "any" \/ RClose(ev.ret, r.val, "1e-6") THEN {} ELSE {<<"C11", "log posterior", ev.ret, r.val>>})
                       ELSE LET q == TLCEval(PostNL(st, ev, ev.vec, temp)) IN
                            (IF q.kind = "any" \/ RClose(ev.ret, q.val, "1e-6") THEN {} ELSE {<<t, "nonlinear log posterior", ev.ret, q.val>> : t \in {"C11", "C25"}})
                            \cup (IF r.kind = "val" /\ r.val = NegInf /\ ev.ret # NegInf THEN {<<"C11", "not minus infinity", ev.ret>>} ELSE {})
                            \cup (IF seen # <<>> /\ ~RClose(seen[1][3], ev.ret, "1e-9") THEN {<<"C11", "depends on history", seen[1][3], ev.ret>>} ELSE {})
                            \cup (IF RIsNaN(ev.ret) THEN {<<"C11", "not a number">>} ELSE {})
                            \* tempering: post(temp) = prior + temp (post(1) - prior)
                            \cup (IF base # <<>> /\ RIsNum(base[1][3]) /\ InPrior(ev.vec)
                                     /\ ~RClose(ev.ret, RAdd(LogPriorVec(ev.vec), RMul(temp, RSub(base[1][3], LogPriorVec(ev.vec)))), "1e-6")
                                  THEN {<<"C11", "tempering", ev.ret>>} ELSE {}))
                      \cup (IF r.kind = "val" /\ r.val = NegInf /\ InPrior(ev.vec) /\ ev.ret # NegInf THEN {<<"C24", "posterior without solution", ev.ret>>} ELSE {})
                      \cup (IF ev.rng THEN {} ELSE {<<"C11", "random number generator was moved">>})
                      \cup (IF ev.same THEN {} ELSE {<<"C11", "argument changed">>})]
JudgeLprior(st, ev) ==
    IF ~ev.ok THEN {<<"C22", "exception", ev.exc, ev.msg>>}
    ELSE IF RClose(ev.ret, LogPriorVec(ev.vec), "1e-5") THEN {} ELSE {<<"C22", "log prior", ev.ret, LogPriorVec(ev.vec)>>, <<"C11", "log prior", ev.ret, LogPriorVec(ev.vec)>>}

\* nonlinear filter at the current parameters: ev.lls, ev.xs[t][i] (filtered) and ev.last[i] (last period when smoothed)
JudgeFilterNL(st, ev) ==
    IF ~ev.ok THEN {<<"C25", "exception", ev.exc, ev.msg>>}
    ELSE IF ~RClose(ev.lls[1], ev.lls[2], "1e-9") THEN {<<"C25", "not reproducible", ev.lls>>}
    ELSE IF ~Has(ev, "u0") THEN {}
    ELSE LET en == TLCEval(Ens(EnsSys(st.cur, st.par, ev.S, ev.R), EnsU(st, ev), st.data))
         IN  IF ~st.cur.wc \/ ~en.ok THEN {}
             ELSE (IF RClose(ev.lls[1], en.ll, "1e-6") THEN {} ELSE {<<"C25", "log likelihood", ev.lls, en.ll>>})
                  \cup (IF Len(ev.xs) = Len(st.data) /\ \A t \in 1..Len(ev.xs) : MClose(ev.xs[t], en.xs[t], "1e-5") THEN {}
                        ELSE {<<"C25", "filtered states", {t \in 1..Len(st.data) : ~MClose(ev.xs[t], en.xs[t], "1e-5")}>>})
                  \cup (IF MClose(ev.last, en.xs[Len(st.data)], "1e-5") THEN {} ELSE {<<"C25", "last period of the smoothed states">>})

\* linear filter at the current parameters; ev.R is the measurement covariance in use
JudgeFilter(st, ev) ==
    IF ~ev.ok THEN {<<"C10", "exception", ev.exc, ev.msg>>}
    ELSE LET g == TLCEval(Gauss(LinSys(st.cur, st.par, ev.R), st.data))
             sm == TLCEval(SmoothedG(g))
         IN  (IF \A i \in 1..Len(ev.lls) : RClose(ev.lls[i], LogLikG(g), Tol) THEN {} ELSE {<<"C10", "log likelihood", ev.lls, LogLikG(g)>>})
             \cup (IF Len(ev.X) = Len(st.data) /\ \A t \in 1..Len(ev.X) : RecClose(ev.X[t], VarsOf(st.cur.m, sm[t])) THEN {}
                   ELSE {<<"C10", "smoothed states">>})

\* extraction with the linear filter: ev.res[i] = [par, x0, eps, X]; X is the replay by simulate
\* the sample, by default the current parameters
ExtPars(st, ev) == IF Has(ev, "pars") THEN ev.pars ELSE <<ParVec(st.par)>>
JudgeExtract(st, ev) ==
    IF ~ev.ok THEN {<<"C12", "exception", ev.exc, ev.msg>>}
    ELSE (IF Len(ev.res) # Len(ExtPars(st, ev)) THEN {<<"C12", "number of members">>}
          ELSE UNION {LET p == AsPar(st.par, ExtPars(st, ev)[i])
                          r == ev.res[i]
                          cur == TLCEval(FreshLK(p, 0, 0))
                          sm == TLCEval(SmoothedG(Gauss(LinSys(cur, p, ev.R), st.data)))
                      IN  (IF VClose(r.par, ExtPars(st, ev)[i], PTol) THEN {} ELSE {<<"C12", "parameters of member", i>>})
                          \cup (IF Len(r.X) = Len(st.data) /\ \A t \in 1..Len(r.X) : RecClose(r.X[t], VarsOf(cur.m, sm[t])) THEN {}
                                ELSE {<<"C12", "replay is not the smoothed path", i>>})
                          \cup (IF RecClose(r.x0, VarsOf(cur.m, sm[1])) THEN {} ELSE {<<"C12", "initial state", i>>})
                      : i \in 1..Len(ExtPars(st, ev))})
         \cup (IF ev.cols # <<>> /\ ev.cols # Shocks THEN {<<"C12", "shock labels", ev.cols>>} ELSE {})
         \cup (IF ev.repro THEN {} ELSE {<<"C12", "not reproducible">>})
         \cup (IF ev.dsame THEN {} ELSE {<<"C12", "data changed">>})
\* with the nonlinear filter: replayed observables close to the data, bound respected where flags say so
JudgeExtractNL(st, ev) ==
    IF ~ev.ok THEN {<<"C12", "exception", ev.exc, ev.msg>>}
    ELSE LET ns == Opt3(ev, "ns", 1)
             ps == [i \in 1..(Len(ExtPars(st, ev)) * ns) |-> ExtPars(st, ev)[((i - 1) \div ns) + 1]]
         IN IF Len(ev.res) # Len(ps) THEN {<<"C12", "number of members">>}
         ELSE UNION {LET r == ev.res[i]
                    p == AsPar(st.par, ps[i])
                IN  (IF VClose(r.par, ps[i], PTol) THEN {} ELSE {<<"C12", "parameters of member", i>>})
                    \* the sampler is a local search: a few observations may be missed, most must be met
                    \cup (IF Len(r.Z) # Len(st.data) THEN {<<"C12", "length", i>>}
                          ELSE LET far == {c \in (1..Len(r.Z)) \X (1..Len(ObsNames)) : ~RLeq(RAbs(RSub(r.Z[c[1]][c[2]], st.data[c[1]][c[2]])), ev.tol[c[2]])}
                               IN  IF 5 * Cardinality(far) <= Len(r.Z) * Len(ObsNames) THEN {} ELSE {<<"C12", "replay is far from the data", i>>})
                    \cup (IF \A t \in 2..Len(r.X) : RLeq(RSub(Derived(p).x_bar, "1e-7"), r.X[t]["r"]) \/ r.flag # 0 THEN {} ELSE {<<"C12", "below the bound", i>>})
                : i \in 1..Len(ps)}
         \cup (IF ev.cols # <<>> /\ ev.cols # Shocks THEN {<<"C12", "shock labels", ev.cols>>} ELSE {})
         \cup (IF ev.repro THEN {} ELSE {<<"C12", "not reproducible">>})
         \cup (IF ev.dsame THEN {} ELSE {<<"C12", "data changed">>})

-----------------------------------------------------------------------------
(* Historical decomposition: ev.members, ev.hd[s] (series of states of      *)
(* shock s), ev.means; both are averages over members.                      *)
JudgeNhd(st, ev) ==
    IF ~ev.ok THEN {<<"C13", "exception", ev.exc, ev.msg>>}
    ELSE LET n == Len(ev.members)
             lin == Opt3(ev, "linear", FALSE)
             curs == TLCEval([i \in 1..n |-> FreshLK(AsPar(st.par, ev.members[i].par), NewL(st, ev), NewK(st, ev))])
             epss == TLCEval([i \in 1..n |-> [t \in 1..Len(ev.members[i].eps) |-> EVec(ev.members[i].eps[t])]])
             paths == TLCEval([i \in 1..n |-> RefPath(At(curs[i], ev.members[i].x0), epss[i], lin)])
             tie == \E i \in 1..n : \E t \in 1..Len(paths[i]) : paths[i][t].tie
             T == Len(epss[1]) + 1
             cons == TLCEval([i \in 1..n |-> Contrib(At(curs[i], ev.members[i].x0), paths[i], epss[i])])
             refmean(t) == MeanRecs([i \in 1..n |-> IF t = 1 THEN ev.members[i].x0 ELSE paths[i][t - 1].x])
             refhd(s, t) == MeanRecs([i \in 1..n |-> cons[i][t][s]])
             sum(t) == SumRecs([j \in 1..Len(Shocks) |-> ev.hd[j][t]])
         IN  IF Len(ev.hd) # Len(Shocks) \/ Len(ev.means) # T \/ \E j \in 1..Len(ev.hd) : Len(ev.hd[j]) # T THEN {<<"C13", "shape">>}
             ELSE (IF \A t \in 1..T : RecClose(sum(t), ev.means[t]) THEN {} ELSE {<<"C13", "contributions do not add up">>})
                  \cup (IF tie \/ \A t \in 1..T : RecClose(ev.means[t], refmean(t)) THEN {} ELSE {<<"C13", "means are not the simulation">>})
                  \cup (IF tie \/ \A t \in 1..T : \A j \in 1..Len(Shocks) : RecClose(ev.hd[j][t], refhd(Shocks[j], t)) THEN {} ELSE {<<"C13", "contributions">>})
                  \cup (IF ev.index THEN {} ELSE {<<"C13", "index">>})
\* sorting: lo[j], hi[j] = <<from, to>> of the bars of shock j
JudgeSort(st, ev) ==
    IF ~ev.ok THEN {<<"C13", "exception", ev.exc, ev.msg>>}
    ELSE LET n == Len(ev.hd) IN
         UNION {UNION {
            LET h == ev.hd[j][c]
                lo == <<ev.lo[j][1][c], ev.lo[j][2][c]>>
                hi == <<ev.hi[j][1][c], ev.hi[j][2][c]>>
                w == RAdd(RSub(hi[2], hi[1]), RSub(lo[2], lo[1]))
            IN  (IF RClose(w, h, Tol) THEN {} ELSE {<<"C13", "sorted contribution", j>>})
                \cup (IF RLeq(lo[2], lo[1]) /\ RLeq(hi[1], hi[2]) /\ (REq(lo[1], lo[2]) \/ REq(hi[1], hi[2])) THEN {} ELSE {<<"C13", "sorted into both or the wrong side", j>>})
                \cup (IF j = 1 THEN (IF REq(lo[1], "0.0") /\ REq(hi[1], "0.0") THEN {} ELSE {<<"C13", "sorted: start">>})
                      ELSE IF RClose(lo[1], ev.lo[j - 1][2][c], Tol) /\ RClose(hi[1], ev.hi[j - 1][2][c], Tol) THEN {} ELSE {<<"C13", "sorted: gap", j>>})
            : c \in 1..Len(ev.hd[j])} : j \in 1..n}

(* Variance decomposition.  ev.members[i] = [par, x0, eps]; ev.states: the  *)
(* states used (if "means" were given).                                     *)
JudgeGfevd(st, ev) ==
    IF ~ev.ok THEN {<<"C14", "exception", ev.exc, ev.msg>>}
    ELSE LET n == Len(ev.members)
             lin == Opt3(ev, "linear", FALSE)
             curs == TLCEval([i \in 1..n |-> FreshLK(AsPar(st.par, ev.members[i].par), NewL(st, ev), NewK(st, ev))])
             T == Len(ev.members[1].eps)
             epss == TLCEval([i \in 1..n |-> [t \in 1..T |-> EVec(ev.members[i].eps[t])]])
             paths == TLCEval([i \in 1..n |-> IF Has(ev, "states") THEN <<>> ELSE RefPath(At(curs[i], ev.members[i].x0), epss[i], lin)])
             state(i, t) == IF Has(ev, "states") THEN ev.states[i][t] ELSE IF t = 1 THEN ev.members[i].x0 ELSE paths[i][t - 1].x
             idx == [j \in 1..(n * T) |-> <<((j - 1) \div T) + 1, ((j - 1) % T) + 1>>]
             void == TLCEval([j \in 1..(n * T) |-> LastOf(At(curs[idx[j][1]], state(idx[j][1], idx[j][2])), EVec(<<"0.0", "0.0", "0.0">>), lin, ev.horizon)])
             resp == TLCEval([s \in Range(Shocks) |-> [j \in 1..(n * T) |->
                        LastOf(At(curs[idx[j][1]], state(idx[j][1], idx[j][2])), UnitE(epss[idx[j][1]][idx[j][2]], s), lin, ev.horizon)]])
             sq(x) == RMul(x, x)
             gi == TLCEval([s \in Range(Shocks) |-> [v \in Range(VarNames) |->
                        VSum([j \in 1..(n * T) |-> sq(RSub(resp[s][j].x[v], void[j].x[v]))])]])
             tot == TLCEval([v \in Range(VarNames) |-> VSum([i \in 1..Len(Shocks) |-> gi[Shocks[i]][v]])])
             tie == (\E j \in 1..(n * T) : void[j].tie \/ \E s \in Range(Shocks) : resp[s][j].tie)
                    \/ \E i \in 1..n : \E t \in 1..Len(paths[i]) : paths[i][t].tie
         IN  IF ev.rows # Shocks THEN {<<"C14", "shock labels", ev.rows>>}
             ELSE UNION {IF RLt(tot[v], "1e-12") THEN {}
                         ELSE (IF tie \/ \A i \in 1..Len(Shocks) : RClose(ev.vd[i][v], RDiv(gi[Shocks[i]][v], tot[v]), "1e-5") THEN {} ELSE {<<"C14", "share", v>>})
                              \cup (IF RClose(VSum([i \in 1..Len(Shocks) |-> ev.vd[i][v]]), "1.0", Tol) THEN {} ELSE {<<"C14", "shares do not sum to one", v>>})
                              \cup (IF \A i \in 1..Len(Shocks) : RLeq("0.0", ev.vd[i][v]) THEN {} ELSE {<<"C14", "negative share", v>>})
                         : v \in Range(VarNames)}

-----------------------------------------------------------------------------
JudgeOp(st, ev) ==
    CASE ev.op = "read" -> [st |-> [st EXCEPT !.zero = Opt3(ev, "zero", FALSE)], bad |-> IF ev.ok THEN {} ELSE {<<t, "model rejected", ev.exc, ev.msg>> : t \in {"C06", "C07"}}]
      [] ev.op = "set" -> JudgeSet(st, ev)
      [] ev.op = "get" -> [st |-> st, bad |-> JudgeGet(st, ev)]
      [] ev.op = "edit" -> [st |-> st, bad |-> {}]
      [] ev.op = "irfb" -> [st |-> st, bad |-> JudgeIrfB(st, ev)]
      [] ev.op = "simu" -> [st |-> st, bad |-> JudgeSim(st, ev)]
      [] ev.op = "obs" -> [st |-> st, bad |-> JudgeObs(st, ev)]
      [] ev.op = "ix" -> [st |-> st, bad |-> JudgeIx(st, ev)]
      [] ev.op = "traj" -> [st |-> st, bad |-> TrajBad(st, ev)]
      [] ev.op = "kmap" -> [st |-> st, bad |-> KmapBad(st, ev)]
      [] ev.op = "data" -> JudgeData(st, ev)
      [] ev.op = "prep" -> JudgePrep(st, ev)
      [] ev.op = "lprob" -> JudgeLprob(st, ev)
      [] ev.op = "lprior" -> [st |-> st, bad |-> JudgeLprior(st, ev)]
      [] ev.op = "filter" -> [st |-> st, bad |-> IF st.est.kind = "lin" THEN JudgeFilter(st, ev) ELSE JudgeFilterNL(st, ev)]
      [] ev.op = "extract" -> [st |-> st, bad |-> IF st.est.kind = "lin" THEN JudgeExtract(st, ev) ELSE JudgeExtractNL(st, ev)]
      [] ev.op = "nhd" -> [st |-> st, bad |-> JudgeNhd(st, ev)]
      [] ev.op = "sort" -> [st |-> st, bad |-> JudgeSort(st, ev)]
      [] ev.op = "gfevd" -> [st |-> st, bad |-> JudgeGfevd(st, ev)]
SJudge(st, ev, trace) ==
    LET r == TLCEval(JudgeOp(st, ev))
    IN  [st |-> TLCEval(Resync(r.st, ev)), bad |-> r.bad \cup DigestBad(r.st, ev)]
===============================================================================
