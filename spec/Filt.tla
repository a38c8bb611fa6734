--------------------------------- MODULE Filt ---------------------------------
(***************************************************************************)
(* Any model in use: a solved model (Sim) with observables that are        *)
(* combinations of its variables, and data.  ev.op:                        *)
(*   read, solve     as in Sim                                             *)
(*   filter          ev.lin: linear (Kalman) or ensemble filter; measure-  *)
(*                   ment covariance ev.R, data ev.Z                       *)
(*   extract         smoothed shocks and their replay, linear              *)
(*   step            one period ahead, from where the model was            *)
(*   simu            simulation of a sample, with a mask; ev.members[i]:   *)
(*                   here (from where the model is, or from zero), eps     *)
(*   nhd, gfevd      decompositions of such a sample                       *)
(*   traj, kmap      expected constraint and duration maps, shocks ev.e    *)
(***************************************************************************)
EXTENDS Ensemble, Effects

ObsRowOf(M, o) == [i \in 1..M.n |-> VSum([j \in 1..Len(o.terms) |-> IF M.slots[i] = <<o.terms[j][2], 0>> THEN o.terms[j][1] ELSE "0.0"])]
HOf(st) == [i \in 1..Len(st.m.obs) |-> ObsRowOf(st.M, st.m.obs[i])]
COf(st) == [i \in 1..Len(st.m.obs) |-> st.m.obs[i].const]
StdOf(st) == [i \in 1..Len(st.m.shocks) |-> st.m.sig[st.m.shocks[i]]]
LinOf(st, R) == [P |-> st.sol.P, Q |-> st.sol.Q, H |-> HOf(st), c |-> COf(st), std |-> StdOf(st), R |-> R]

\* the smoother inverts covariances that may be close to singular: where its answers
\* with two cut-offs disagree, they are not compared
Stable(ev) == MClose(ev.probe[1], ev.probe[2], "1e-7")
NearRec(m, a, b) == \A v \in VarSet(m) : RClose(a[v], b[v], "1e-5")
JudgeLin(st, ev) ==
    LET g == TLCEval(Gauss(LinOf(st, ev.R), ev.Z))
        sm == TLCEval(SmoothedG(g))
    IN  (IF \A i \in 1..Len(ev.lls) : RClose(ev.lls[i], LogLikG(g), Tol) THEN {} ELSE {<<"C10", "log likelihood", ev.lls, LogLikG(g)>>})
        \cup (IF ~Stable(ev) \/ (Len(ev.X) = Len(ev.Z) /\ \A t \in 1..Len(ev.X) : NearRec(st.m, ev.X[t], VarsOf(st.m, sm[t]))) THEN {} ELSE {<<"C10", "smoothed states">>})
JudgeEns(st, ev) ==
    LET sys == [cur |-> st, S |-> ev.S, H |-> HOf(st), c |-> COf(st), std |-> StdOf(st), R |-> ev.R]
        en == TLCEval(Ens(sys, ev.U, ev.Z))
    IN  IF ~en.ok THEN {}
        ELSE (IF \A i \in 1..Len(ev.lls) : RClose(ev.lls[i], en.ll, Tol) THEN {} ELSE {<<"C25", "log likelihood", ev.lls, en.ll>>})
             \cup (IF Len(ev.xs) = Len(ev.Z) /\ \A t \in 1..Len(ev.xs) : MClose(ev.xs[t], en.xs[t], "1e-5") THEN {} ELSE {<<"C25", "filtered states">>})
JudgeExt(st, ev) ==
    LET sm == TLCEval(SmoothedG(Gauss(LinOf(st, ev.R), ev.Z)))
    IN  IF ~Stable(ev) THEN {} ELSE
        (IF Len(ev.X) = Len(ev.Z) /\ \A t \in 1..Len(ev.X) : NearRec(st.m, ev.X[t], VarsOf(st.m, sm[t])) THEN {} ELSE {<<"C12", "replay is not the smoothed path">>})
        \cup (IF NearRec(st.m, ev.x0, VarsOf(st.m, sm[1])) THEN {} ELSE {<<"C12", "initial state">>})

-----------------------------------------------------------------------------
CloseTo(a, b) == LET norm == RMax(VMaxAbs(a), VMaxAbs(b)) IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], norm)
From(st, mem) == IF mem.here THEN st ELSE Rested(st)
RecNear(m, a, b) == CloseNames(m.vars, a, b)
\* shocks under a mask: a row per period, a value per shock (declared order), "nan" = untouched
MaskedE(st, ev, t, e) ==
    IF "mask" \notin DOMAIN ev THEN e
    ELSE [s \in DOMAIN e |-> LET q == ev.mask[t][CHOOSE i \in 1..Len(st.m.shocks) : st.m.shocks[i] = s] IN
            IF RIsNaN(q) THEN e[s] ELSE CASE ev.oper = "mul" -> RMul(q, e[s]) [] ev.oper = "add" -> RAdd(q, e[s]) [] ev.oper = "rep" -> q]
ObsAt(st, x) == [o \in 1..Len(st.m.obs) |-> RAdd(st.m.obs[o].const, VSum([j \in 1..Len(st.m.obs[o].terms) |-> RMul(st.m.obs[o].terms[j][1], x[st.m.obs[o].terms[j][2]])]))]
RECURSIVE SimBad(_, _, _, _, _)
SimBad(s, ev, mem, r, t) ==       \* [bad, flags: sets of allowed flags per period]
    IF t > Len(mem.eps) THEN [bad |-> {}, flags |-> <<>>]
    ELSE LET e == MaskedE(s, ev, t, FullShock(s.m, mem.eps[t]))
             a == TLCEval(Allowed(s, e, ev.linear, <<>>))
             x == r.X[t + 1]
             rest == TLCEval(SimBad(Advance(s, x, e), ev, mem, r, t + 1))
         IN  [bad |-> (IF \E d \in a : d[1] = r.L[t] /\ d[2] = r.K[t] THEN {} ELSE {<<"C05", "durations", t, <<r.L[t], r.K[t]>>, a>>})
                      \cup (IF InTable(s, r.L[t], r.K[t]) /\ IsMove(s, r.L[t], r.K[t], e, x) THEN {} ELSE {<<"C05", "state", t>>})
                      \cup rest.bad,
              flags |-> <<{d[3] : d \in a}>> \o rest.flags]
JudgeSimu(st, ev) ==
    IF Len(ev.res) # Len(ev.members) THEN {<<"C05", "number of members">>}
    ELSE UNION {LET mem == ev.members[i]
                    r == ev.res[i]
                    T == Len(mem.eps)
                    b == TLCEval(SimBad(From(st, mem), ev, mem, r, 1))
                IN  IF Len(r.X) # T + 1 \/ Len(r.L) # T \/ Len(r.K) # T THEN {<<"C05", "length">>}
                    ELSE (IF RecNear(st.m, r.X[1], Past(From(st, mem), 1)) THEN {} ELSE {<<"C05", "initial state">>})
                         \cup b.bad
                         \cup (IF (\E t \in 1..T : 0 \notin b.flags[t]) /\ r.flag = 0 THEN {<<"C05", "missing flag">>} ELSE {})
                         \cup (IF (\A t \in 1..T : b.flags[t] = {0}) /\ r.flag # 0 THEN {<<"C05", "flag">>} ELSE {})
                         \cup (IF Len(r.Z) = T + 1 /\ \A t \in 1..Len(r.X) : VClose(r.Z[t], ObsAt(st, r.X[t]), Tol) THEN {} ELSE {<<"C21", "observables", i>>})
                : i \in 1..Len(ev.members)}
         \cup (IF ev.same THEN {} ELSE {<<"C05", "inputs changed">>})

Sample(st, ev) == TLCEval([i \in 1..Len(ev.members) |->
    LET s == From(st, ev.members[i])
        epss == TLCEval([t \in 1..Len(ev.members[i].eps) |-> FullShock(st.m, ev.members[i].eps[t])])
    IN  [s |-> s, epss |-> epss, path |-> TLCEval(RefPath(s, epss, ev.linear))]])
Tied(smp) == \E i \in DOMAIN smp : \E t \in DOMAIN smp[i].path : smp[i].path[t].tie
JudgeHd(st, ev) ==
    LET smp == Sample(st, ev)
        n == Len(smp)
        T == Len(smp[1].epss) + 1
        sh == st.m.shocks
        cons == TLCEval([i \in 1..n |-> Contrib(smp[i].s, smp[i].path, smp[i].epss)])
        refmean(t) == MeanRecs([i \in 1..n |-> IF t = 1 THEN Past(smp[i].s, 1) ELSE smp[i].path[t - 1].x])
        refhd(s, t) == MeanRecs([i \in 1..n |-> cons[i][t][s]])
        sum(t) == SumRecs([j \in 1..Len(sh) |-> ev.hd[j][t]])
    IN  IF Len(ev.hd) # Len(sh) \/ Len(ev.means) # T \/ \E j \in 1..Len(ev.hd) : Len(ev.hd[j]) # T THEN {<<"C13", "shape">>}
        ELSE (IF \A t \in 1..T : RecNear(st.m, sum(t), ev.means[t]) THEN {} ELSE {<<"C13", "contributions do not add up">>})
             \cup (IF Tied(smp) \/ \A t \in 1..T : RecNear(st.m, ev.means[t], refmean(t)) THEN {} ELSE {<<"C13", "means are not the simulation">>})
             \cup (IF Tied(smp) \/ \A t \in 1..T : \A j \in 1..Len(sh) : RecNear(st.m, ev.hd[j][t], refhd(sh[j], t)) THEN {} ELSE {<<"C13", "contributions">>})
JudgeVd(st, ev) ==
    LET smp == Sample(st, ev)
        sh == st.m.shocks
        at == TLCEval([i \in 1..Len(smp) |-> LET q == StatesOn(smp[i].s, smp[i].path, smp[i].epss) IN [t \in 1..Len(smp[i].epss) |-> [s |-> q[t], e |-> smp[i].epss[t]]]])
        all == TLCEval(FlattenSeq(at))
        void == TLCEval([j \in 1..Len(all) |-> LastOf(all[j].s, ZeroShocks(st.m), ev.linear, ev.horizon)])
        resp == TLCEval([s \in ShockSet(st.m) |-> [j \in 1..Len(all) |-> LastOf(all[j].s, UnitE(all[j].e, s), ev.linear, ev.horizon)]])
        sq(x) == RMul(x, x)
        gi == TLCEval([s \in ShockSet(st.m) |-> [v \in VarSet(st.m) |-> VSum([j \in 1..Len(all) |-> sq(RSub(resp[s][j].x[v], void[j].x[v]))])]])
        tot == TLCEval([v \in VarSet(st.m) |-> VSum([i \in 1..Len(sh) |-> gi[sh[i]][v]])])
        top == VMaxAbs([i \in 1..Len(st.m.vars) |-> tot[st.m.vars[i]]])
        tie == Tied(smp) \/ \E j \in 1..Len(all) : void[j].tie \/ \E s \in ShockSet(st.m) : resp[s][j].tie
    IN  IF ev.rows # sh THEN {<<"C14", "shock labels", ev.rows>>}
        ELSE UNION {IF RLt(tot[v], RMax("1e-10", RMul("1e-10", top))) THEN {}
                    ELSE (IF tie \/ \A i \in 1..Len(sh) : RLeq(RAbs(RSub(ev.vd[i][v], RDiv(gi[sh[i]][v], tot[v]))), "1e-4") THEN {} ELSE {<<"C14", "share", v>>})
                         \cup (IF RClose(VSum([i \in 1..Len(sh) |-> ev.vd[i][v]]), "1.0", Tol) THEN {} ELSE {<<"C14", "shares do not sum to one", v>>})
                         \cup (IF \A i \in 1..Len(sh) : RLeq("0.0", ev.vd[i][v]) THEN {} ELSE {<<"C14", "negative share", v>>})
                    : v \in VarSet(st.m)}
\* -1: not given; a trajectory needs both durations, a map takes a missing l as 0 next to a given k
JudgeTraj(st, ev) ==
    LET e == FullShock(st.m, ev.e)
        es == ShockVec(st.m, e)
        found == {<<a[1], a[2]>> : a \in Allowed(st, e, FALSE, <<>>)}
        lks == TLCEval(IF ev.lk[1] < 0 \/ ev.lk[2] < 0 THEN found ELSE {ev.lk})
        ref(lk) == RulePath(st.M, st.tab, lk[1], lk[2], Lag(st), es, Len(ev.ret) - 1)
    IN  (IF Len(ev.ret) < st.L + st.K + 1 THEN {<<"C19", "horizon">>} ELSE {})
        \cup (IF \E lk \in lks : CloseTo(ev.ret, ref(lk)) THEN {} ELSE {<<"C19", "trajectory", lks, ev.ret>>})
JudgeKmap(st, ev) ==
    LET e == FullShock(st.m, ev.e)
        es == ShockVec(st.m, e)
        found == {<<a[1], a[2]>> : a \in Allowed(st, e, FALSE, <<>>)}
        lks == TLCEval(IF ev.lk[2] >= 0 THEN {<<IF ev.lk[1] < 0 THEN 0 ELSE ev.lk[1], ev.lk[2]>>}
                       ELSE {<<IF ev.lk[1] > 0 THEN ev.lk[1] ELSE a[1], a[2]>> : a \in found})
        at(l, k) == RSub(RulePath(st.M, st.tab, l, k, Lag(st), es, l + k)[l + k + 1], st.m.xbar)
    IN  IF Len(ev.ls) > st.L + 1 \/ Len(ev.ks) > st.K + 1 THEN {<<"C19", "map: size">>}
        ELSE IF \E lk \in lks : CloseTo(ev.ls, [i \in 1..Len(ev.ls) |-> at(i - 1, lk[2])]) /\ CloseTo(ev.ks, [i \in 1..Len(ev.ks) |-> at(lk[1], i - 1)])
        THEN {} ELSE {<<"C19", "duration map", lks>>}

FTag(ev) == CASE ev.op = "extract" -> "C12" [] ev.op = "filter" -> IF ev.lin THEN "C10" ELSE "C25" [] ev.op = "simu" -> "C05" [] ev.op = "nhd" -> "C13"
              [] ev.op = "gfevd" -> "C14" [] ev.op \in {"traj", "kmap"} -> "C19" [] ev.op = "step" -> "C01"
FStart == [none |-> TRUE]
FJudge(st, ev, trace) ==
    CASE ev.op = "read" -> [st |-> st, bad |-> IF ev.ok THEN {} ELSE {<<"C01", "model file rejected", ev.exc, ev.msg>>}]
      [] ev.op = "solve" -> \* without a horizon, that of before stays
                            LET n == TLCEval(IF ev.lmax < 0 /\ st # FStart THEN Rested(st) ELSE Fresh(trace.model, ev.lmax, ev.kmax)) IN
                            [st |-> IF ev.ok THEN n ELSE FStart, bad |-> {}]
      [] st = FStart -> [st |-> st, bad |-> {}]
      [] st.tab = <<>> -> [st |-> st, bad |-> {}]
      [] ~ev.ok -> [st |-> st, bad |-> {<<FTag(ev), "exception", ev.exc, ev.msg>>}]
      [] ev.op = "filter" -> [st |-> st, bad |-> IF ev.lin THEN JudgeLin(st, ev) ELSE JudgeEns(st, ev)]
      [] ev.op = "extract" -> [st |-> st, bad |-> JudgeExt(st, ev)]
      [] ev.op = "step" -> [st |-> TLCEval(Advance(st, ev.x, FullShock(st.m, ev.e))), bad |-> {}]
      [] ev.op = "simu" -> [st |-> st, bad |-> JudgeSimu(st, ev)]
      [] ev.op = "nhd" -> [st |-> st, bad |-> JudgeHd(st, ev)]
      [] ev.op = "gfevd" -> [st |-> st, bad |-> JudgeVd(st, ev)]
      [] ev.op = "traj" -> [st |-> st, bad |-> JudgeTraj(st, ev)]
      [] ev.op = "kmap" -> [st |-> st, bad |-> JudgeKmap(st, ev)]
===============================================================================
