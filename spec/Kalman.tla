-------------------------------- MODULE Kalman --------------------------------
(***************************************************************************)
(* The Gaussian state-space form of a linear model,                        *)
(*     x_t = P x_(t-1) + Q e_t,   e_t ~ N(0, S),                            *)
(*     z_t = c + H x_t + v_t,     v_t ~ N(0, R),                            *)
(* started from its stationary distribution.  Likelihood and smoothed      *)
(* states are defined without recursion, from the joint normal             *)
(* distribution of all observations.                                       *)
(***************************************************************************)
EXTENDS Reals, Integers, Sequences, TLC

\* X = P X P' + V by doubling
RECURSIVE Doubling(_, _, _)
Doubling(P, V, n) ==
    IF n = 0 THEN V
    ELSE Doubling(TLCEval(MMul(P, P)), TLCEval(MAdd(V, MMul(MMul(P, V), MT(P)))), n - 1)
Diag(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE "0.0"]]
Stationary(P, Q, std) ==
    LET S == Diag([i \in 1..Len(std) |-> RMul(std[i], std[i])])
    IN  Doubling(P, TLCEval(MMul(MMul(Q, S), MT(Q))), 14)

RECURSIVE Powers(_, _)        \* <<P^0 X, P^1 X, ..., P^n X>>
Powers(PX, n) == IF n = 0 THEN <<PX.X>> ELSE LET p == Powers(PX, n - 1) IN Append(p, TLCEval(MMul(PX.P, p[n])))

\* G[h+1] = Cov(x_(t+h), x_t)
AutoCov(P, Sig0, n) == Powers([P |-> P, X |-> Sig0], n)

\* joint covariance of all observations: rows (t, o) -> nz (t-1) + o
JointCov(G, H, R, T) ==
    LET nz == Len(H)
        HGH == TLCEval([h \in 1..T |-> MMul(MMul(H, G[h]), MT(H))])     \* Cov(z_(t+h-1), z_t)
        entry(a, b) == LET t == ((a - 1) \div nz) + 1  o == ((a - 1) % nz) + 1
                           s == ((b - 1) \div nz) + 1  q == ((b - 1) % nz) + 1
                           v == IF t >= s THEN HGH[t - s + 1][o][q] ELSE HGH[s - t + 1][q][o]
                       IN  IF t = s THEN RAdd(v, R[o][q]) ELSE v
    IN  [a \in 1..(nz * T) |-> [b \in 1..(nz * T) |-> entry(a, b)]]

Deviations(Z, c) == [a \in 1..(Len(Z) * Len(c)) |->
                        LET t == ((a - 1) \div Len(c)) + 1  o == ((a - 1) % Len(c)) + 1 IN RSub(Z[t][o], c[o])]
Log2Pi == "1.8378770664093453"

\* sys: [P, Q, H, c, std, R]
Gauss(sys, Z) ==
    LET T == Len(Z)
        Sig0 == TLCEval(Stationary(sys.P, sys.Q, sys.std))
        G == TLCEval(AutoCov(sys.P, Sig0, T - 1))
        V == TLCEval(JointCov(G, sys.H, sys.R, T))
        d == TLCEval(Deviations(Z, sys.c))
        w == TLCEval(VSolve(V, d))
    IN  [T |-> T, G |-> G, V |-> V, d |-> d, w |-> w, H |-> sys.H]
LogLikG(g) == RMul("-0.5", RAdd(RAdd(RMul(RNum(Len(g.d)), Log2Pi), MLogDet(g.V)), VDot(g.d, g.w)))
LogLik(sys, Z) == LogLikG(TLCEval(Gauss(sys, Z)))
\* E[x_t | all observations], t in 1..T
SmoothedG(g) ==
    LET nz == Len(g.H)
        GH == TLCEval([h \in 1..g.T |-> MMul(g.G[h], MT(g.H))])               \* Cov(x_(t+h-1), z_t)
        HG == TLCEval([h \in 1..g.T |-> MMul(MT(g.G[h]), MT(g.H))])           \* Cov(x_t, z_(t+h-1))
        wt(s) == SubSeq(g.w, nz * (s - 1) + 1, nz * s)
        part(t, s) == IF t >= s THEN MVec(GH[t - s + 1], wt(s)) ELSE MVec(HG[s - t + 1], wt(s))
        RECURSIVE acc(_, _)
        acc(t, s) == IF s = 0 THEN VZero(Len(g.G[1])) ELSE VAdd(acc(t, s - 1), part(t, s))
    IN  [t \in 1..g.T |-> TLCEval(acc(t, g.T))]
===============================================================================
