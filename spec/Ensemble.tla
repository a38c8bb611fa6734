------------------------------- MODULE Ensemble -------------------------------
(***************************************************************************)
(* The nonlinear likelihood: an ensemble of N members is moved by the      *)
(* model's own constrained transition (Sim.Allowed decides how long the    *)
(* bound binds for each member) and pulled towards each observation.       *)
(*                                                                         *)
(*   U.x[i], U.e[t][i], U.m[t][i]   standardised draws: initial state,     *)
(*        shocks and measurement errors of member i (in period t)          *)
(*   S    names of the state variables, in the order of U.x                *)
(*                                                                         *)
(* The draws are an input; everything else is defined here.                *)
(*   sys  [cur: laws and tables of the model, S, H, c: observation mapping, *)
(*        std: standard deviations of the shocks as declared, R]            *)
(***************************************************************************)
EXTENDS Sim, Kalman

\* covariance of the variables S in the stationary distribution of the linear model
StatCov(sys) ==
    LET M == sys.cur.M
        Sig == TLCEval(Stationary(sys.cur.sol.P, sys.cur.sol.Q, sys.std))
        slot(v) == CHOOSE i \in 1..M.n : M.slots[i] = <<v, 0>>
    IN  [i \in 1..Len(sys.S) |-> [j \in 1..Len(sys.S) |-> Sig[slot(sys.S[i])][slot(sys.S[j])]]]

\* the last entry of a name counts (a variable may be listed as itself and as a lag)
AsRecord(sys, x) == [v \in VarSet(sys.cur.m) |->
                    IF \E i \in 1..Len(sys.S) : sys.S[i] = v
                    THEN x[CHOOSE i \in 1..Len(sys.S) : sys.S[i] = v /\ \A j \in (i + 1)..Len(sys.S) : sys.S[j] # v] ELSE "0.0"]

\* one member, one period: [x, y, ok, k]; not ok: rounding may decide on the durations
MemberStep(sys, x, u) ==
    LET c == [sys.cur EXCEPT !.hist = <<AsRecord(sys, x)>>]
        m == c.m
        e == [s \in ShockSet(m) |-> LET i == CHOOSE i \in 1..Len(m.shocks) : m.shocks[i] = s IN RMul(sys.std[i], u[i])]
        a == TLCEval(Allowed(c, e, FALSE, <<>>))
        d == CHOOSE d \in a : TRUE
        v == TLCEval(Move(Law(c.tab, d[1], d[2]), Lag(c), ShockVec(m, e)))
        xn == TLCEval(VarsOf(m, v))
    IN  [x |-> [i \in 1..Len(sys.S) |-> xn[sys.S[i]]], y |-> VAdd(sys.c, MVec(sys.H, v)), ok |-> Cardinality(a) = 1, k |-> d[2]]

EnsMean(A) == MVec(MScale(RDiv("1.0", RNum(Len(A))), MT(A)), [i \in 1..Len(A) |-> "1.0"])
EnsCentre(A) == LET m == TLCEval(EnsMean(A)) IN [i \in 1..Len(A) |-> VSub(A[i], m)]
LogNormal(d, V) == RMul("-0.5", RAdd(RAdd(RMul(RNum(Len(d)), Log2Pi), MLogDet(V)), VDot(d, VSolve(V, d))))

RECURSIVE EnsRun(_, _, _, _, _, _)
EnsRun(sys, U, rR, Z, t, X) ==       \* [ll, xs: filtered ensembles, ok, bound: does it ever bind?]
    IF t > Len(Z) THEN [ll |-> "0.0", xs |-> <<>>, ok |-> TRUE, bound |-> FALSE]
    ELSE LET N == Len(X)
             st == TLCEval([i \in 1..N |-> MemberStep(sys, X[i], U.e[t][i])])
             Xp == TLCEval([i \in 1..N |-> st[i].x])
             Y == TLCEval([i \in 1..N |-> st[i].y])
             Xb == TLCEval(EnsCentre(Xp))
             Yb == TLCEval(EnsCentre(Y))
             V == TLCEval(MAdd(MScale(RDiv("1.0", RNum(N - 1)), MMul(MT(Yb), Yb)), sys.R))
             mu == TLCEval(MMul(U.m[t], rR))
             \* gain: Cov(x, y) V^-1, transposed
             G == TLCEval(MSolve(V, MScale(RDiv("1.0", RNum(N - 1)), MMul(MT(Yb), Xb))))
             Xn == TLCEval(MAdd(Xp, MMul([i \in 1..N |-> VSub(VSub(Z[t], Y[i]), mu[i])], G)))
             rest == TLCEval(EnsRun(sys, U, rR, Z, t + 1, Xn))
         IN  [ll |-> RAdd(LogNormal(VSub(Z[t], EnsMean(Y)), V), rest.ll),
              xs |-> <<Xn>> \o rest.xs,
              ok |-> (\A i \in 1..N : st[i].ok) /\ RLeq(RMul(MMaxAbs(V), MMaxAbs(MInv(V))), "1e8") /\ rest.ok,
              bound |-> (\E i \in 1..N : st[i].k > 0) \/ rest.bound]
Ens(sys, U, Z) == EnsRun(sys, U, TLCEval(MSqrt(sys.R)), Z, 1, TLCEval(MMul(U.x, MSqrt(StatCov(sys)))))
===============================================================================
