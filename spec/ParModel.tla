------------------------------- MODULE ParModel -------------------------------
(***************************************************************************)
(* A parametric model: the meaning of harness/pm.yaml as a function of its *)
(* parameters.  A parameter vector is a record of reals over ParNames.     *)
(***************************************************************************)
EXTENDS Sim

ParNames == <<"bet", "th", "sg", "phi_pi", "phi_y", "rho", "h", "rho_u", "rho_z", "rho_r",
              "ybar", "pibar", "elb", "s_u", "s_z", "s_r">>
ParSet == Range(ParNames)
Calib == [bet |-> "0.99", th |-> "0.7", sg |-> "0.8", phi_pi |-> "1.7", phi_y |-> "0.12", rho |-> "0.6",
          h |-> "0.3", rho_u |-> "0.8", rho_z |-> "0.5", rho_r |-> "0.3", ybar |-> "0.4", pibar |-> "0.5",
          elb |-> "0.9", s_u |-> "0.6", s_z |-> "0.3", s_r |-> "0.25"]
DerNames == <<"x_bar", "one_over", "kap", "sr2">>
ObsNames == <<"GDP", "Infl", "FFR">>
Shocks == <<"e_z", "e_u", "e_r">>

\* estimated parameters, in the order of the prior section, with their priors
EstNames == <<"phi_pi", "rho_u", "s_u", "th", "sg", "s_z">>
EstSet == Range(EstNames)
Prior == [phi_pi |-> [init |-> "1.8", lb |-> "1.0", ub |-> "3.0", dist |-> "normal", a |-> "1.7", b |-> "0.3"],
          rho_u  |-> [init |-> "None", lb |-> "0.01", ub |-> "0.99", dist |-> "beta", a |-> "0.7", b |-> "0.1"],
          s_u    |-> [init |-> "0.5", lb |-> "0.01", ub |-> "4.0", dist |-> "inv_gamma_dynare", a |-> "0.3", b |-> "2.0"],
          th     |-> [init |-> "0.65", lb |-> "0.2", ub |-> "0.95", dist |-> "uniform", a |-> "0.4", b |-> "0.9"],
          sg     |-> [init |-> "None", lb |-> "0.1", ub |-> "3.0", dist |-> "gamma", a |-> "0.9", b |-> "0.2"],
          s_z    |-> [init |-> "0.4", lb |-> "0.01", ub |-> "4.0", dist |-> "inv_gamma", a |-> "0.4", b |-> "0.3"]]

One == "1.0"
Derived(p) ==
    [kap |-> RDiv(RMul(RSub(One, p.th), RSub(One, RMul(p.bet, p.th))), p.th),
     x_bar |-> RNeg(RAdd(p.elb, RSub(RDiv(One, p.bet), One))),
     one_over |-> RDiv(One, p.bet),
     sr2 |-> RMul("2.0", p.s_r)]

\* the linear model with constraint at parameters p and derived parameters d (format of LinearModel)
PModelD(p, d) ==
    [vars |-> <<"y", "Pi", "dy", "r", "u", "z", "vr">>,
     shocks |-> Shocks,
     eqs |-> <<
       << <<One, "y", 0>>, <<RNeg(RSub(One, p.h)), "y", 1>>, <<RNeg(p.h), "y", -1>>, <<p.sg, "r", 0>>, <<RNeg(p.sg), "Pi", 1>>, <<One, "u", 0>> >>,
       << <<One, "Pi", 0>>, <<RNeg(p.bet), "Pi", 1>>, <<RNeg(d.kap), "y", 0>>, <<"-1.0", "z", 0>> >>,
       << <<One, "dy", 0>>, <<"-1.0", "y", 0>>, <<One, "y", -1>> >>,
       << <<One, "u", 0>>, <<RNeg(p.rho_u), "u", -1>>, <<"-1.0", "e_u", 0>> >>,
       << <<One, "z", 0>>, <<RNeg(p.rho_z), "z", -1>>, <<"-1.0", "e_z", 0>> >>,
       << <<One, "vr", 0>>, <<RNeg(p.rho_r), "vr", -1>>, <<"-1.0", "e_r", 0>> >> >>,
     con |-> [var |-> "r", terms |-> << <<p.rho, "r", -1>>, <<RMul(RSub(One, p.rho), p.phi_pi), "Pi", 0>>,
                                        <<RMul(RSub(One, p.rho), p.phi_y), "y", 0>>, <<One, "vr", 0>> >>],
     xbar |-> d.x_bar]
PModel(p) == PModelD(p, TLCEval(Derived(p)))

\* observables of a record of variables, in the declared order
PObs(p, x) == << RAdd(x["dy"], p.ybar), RAdd(x["Pi"], p.pibar),
                 RAdd(RAdd(x["r"], p.pibar), RSub(RDiv(One, p.bet), One)) >>
\* the same as a matrix over the slots of the first-order form, and its constant
ObsConst(p) == PObs(p, [v \in {"dy", "Pi", "r"} |-> "0.0"])
ObsRow(M, v) == [i \in 1..M.n |-> IF M.slots[i] = <<v, 0>> THEN One ELSE "0.0"]
ObsMat(M) == << ObsRow(M, "dy"), ObsRow(M, "Pi"), ObsRow(M, "r") >>
\* standard deviations of the shocks, in the model's shock order
PStd(p) == << p.s_z, p.s_u, Derived(p).sr2 >>

ParVec(p) == [i \in 1..Len(ParNames) |-> p[ParNames[i]]]
EstVec(p) == [i \in 1..Len(EstNames) |-> p[EstNames[i]]]
ToPar(v)  == [n \in ParSet |-> v[CHOOSE i \in 1..Len(ParNames) : ParNames[i] = n]]
WithEst(p, v) == [n \in ParSet |-> IF n \in EstSet THEN v[CHOOSE i \in 1..Len(EstNames) : EstNames[i] = n] ELSE p[n]]
\* named parameter sets that exist without an estimation
PriorMean == WithEst(Calib, [i \in 1..Len(EstNames) |->
                LET q == Prior[EstNames[i]] IN IF q.dist = "uniform" THEN RDiv(RAdd(q.a, q.b), "2.0") ELSE q.a])
InitPars  == WithEst(Calib, [i \in 1..Len(EstNames) |->
                LET q == Prior[EstNames[i]] IN IF q.init = "None" THEN Calib[EstNames[i]] ELSE q.init])
\* the mean of Dynare's inverse gamma is scaled to be away from its mode
AdjPriorMean == [PriorMean EXCEPT !["s_u"] = RMul("10.0", @)]
Named(s) == CASE s = "calib" -> Calib [] s = "prior_mean" -> PriorMean [] s = "init" -> InitPars
              [] s = "best" -> InitPars [] s = "adj_prior_mean" -> AdjPriorMean
\* parameters that are accepted at all: bound not positive, unique stable solution
PSolve(p) == Solve(TLCEval(Mats(PModel(p))))
XbarOK(p) == RLeq(Derived(p).x_bar, "0.0")
PFresh(p, lmax, kmax) == Fresh(PModel(p), lmax, kmax)
===============================================================================
