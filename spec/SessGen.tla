------------------------------- MODULE SessGen -------------------------------
(***************************************************************************)
(* Generation of sessions with the parametric model, by random walk: a     *)
(* class of operations is chosen first, then an operation of that class.   *)
(* FAM selects which classes are mixed (what the session is about).        *)
(***************************************************************************)
EXTENDS ParModel, SequencesExt, Json, IOUtils
VARIABLES ops, cls

Fam == IOEnv.FAM
N(x) == ParVec(x)
\* parameter points with a unique stable solution ...
Good == << Calib,
           [Calib EXCEPT !.phi_pi = "2.1", !.rho_u = "0.6"],
           [Calib EXCEPT !.sg = "1.2", !.th = "0.6", !.s_u = "0.9"],
           [Calib EXCEPT !.h = "0.5", !.bet = "0.98", !.elb = "0.5", !.ybar = "0.1", !.s_r = "0.4"],
           [Calib EXCEPT !.rho = "0.8", !.phi_y = "0.3", !.rho_z = "0.7", !.pibar = "0.9"],
           [Calib EXCEPT !.rho_u = "0.9", !.s_z = "0.15", !.elb = "0.3"],
           \* humps: with opposing shocks the bound binds only later
           [Calib EXCEPT !.rho = "0.0", !.h = "0.1", !.elb = "0.5"],
           \* signs: negative constants and alternating shocks
           [Calib EXCEPT !.ybar = "-0.35", !.pibar = "-0.2", !.rho_r = "-0.5", !.rho_z = "-0.3", !.elb = "0.7"] >>
\* ... and without one, or with a positive bound
Bad == << [Calib EXCEPT !.phi_pi = "0.5"], [Calib EXCEPT !.rho_u = "1.3"], [Calib EXCEPT !.elb = "-2.0"],
          [Calib EXCEPT !.phi_pi = "0.2", !.phi_y = "0.0", !.s_u = "0.9"] >>
GoodS == Range(Good)
BadS == Range(Bad)
AnyS == GoodS \cup BadS
EstGood == {EstVec(p) : p \in GoodS}
EstBad == {EstVec(p) : p \in BadS}
VecG == {ParVec(p) : p \in GoodS} \cup EstGood
VecB == {ParVec(p) : p \in BadS} \cup EstBad

NewVals == [bet |-> "0.985", th |-> "0.75", sg |-> "1.1", phi_pi |-> "2.2", phi_y |-> "0.2", rho |-> "0.75", h |-> "0.4", rho_u |-> "0.7",
            rho_z |-> "0.6", rho_r |-> "0.1", ybar |-> "0.33", pibar |-> "0.62", elb |-> "0.4", s_u |-> "0.77", s_z |-> "0.22", s_r |-> "0.31"]
LKs == {<<-1, -1>>, <<2, 5>>, <<1, 3>>, <<2, 7>>}
WithLK(o) == {IF lk[1] < 0 THEN o ELSE o @@ [lmax |-> lk[1], kmax |-> lk[2]] : lk \in LKs}

SetGood == {[op |-> "set", how |-> "name", name |-> n, value |-> NewVals[n], d |-> 1] : n \in ParSet}
           \cup {[op |-> "set", how |-> "name", name |-> n, value |-> Calib[n], d |-> 1] : n \in ParSet}
SetVec == {[op |-> "set", how |-> "vec", vec |-> v, aslist |-> l, d |-> 1] : v \in VecG, l \in BOOLEAN}
SetVecLK == UNION {WithLK([op |-> "set", how |-> "vec", vec |-> v, d |-> 1]) : v \in VecG}
SetNamed == {[op |-> "set", how |-> "named", name |-> s, d |-> 1] : s \in {"calib", "prior_mean", "init", "best", "adj_prior_mean"}}
SetNone == UNION {WithLK([op |-> "set", how |-> "none", d |-> 1]) : x \in {1}}
SetFail == {[op |-> "set", how |-> "vec", vec |-> v, d |-> 1] : v \in VecB}
           \cup {[op |-> "set", how |-> "name", name |-> q[1], value |-> q[2], d |-> 1] : q \in {<<"phi_pi", "0.4">>, <<"rho_u", "1.2">>, <<"elb", "-1.5">>, <<"rho_z", "1.05">>, <<"th", "0.0">>}}
           \cup {[op |-> "set", how |-> "bad", what |-> w, d |-> 1] : w \in {"unknown", "derived", "unknownset", "length", "shock", "variable", "empty"}}
           \cup {[op |-> "set", how |-> "vec", vec |-> v, lmax |-> 2, kmax |-> 6, d |-> 1] : v \in VecB}
\* a sweep over the region where the solution stops to exist or to be unique
SetGrid == {[op |-> "set", how |-> "vec", vec |-> ParVec([Calib EXCEPT !.phi_pi = a, !.phi_y = b, !.rho = c, !.rho_u = d, !.h = e, !.sg = f]), d |-> 1] :
              a \in {"0.0", "0.5", "0.9", "1.1", "1.6"}, b \in {"0.0", "0.4", "1.5"}, c \in {"0.0", "0.6", "0.95", "1.15"}, d \in {"0.5", "0.98", "1.03"},
              e \in {"0.0", "0.3", "0.8"}, f \in {"0.2", "1.0", "2.5"}}
SetOneGrid == {[op |-> "set", how |-> "name", name |-> q[1], value |-> q[2], d |-> 1] :
                 q \in ({"phi_pi"} \X {"0.0", "0.6", "0.97", "1.04", "2.0"}) \cup ({"rho_u", "rho_z", "rho_r"} \X {"-0.9", "0.0", "0.97", "1.01", "1.5"})
                       \cup ({"rho"} \X {"0.0", "0.9", "1.1", "1.3"}) \cup ({"phi_y"} \X {"-0.5", "0.0", "2.0"}) \cup ({"h"} \X {"0.0", "0.5", "0.9", "1.0"})
                       \cup ({"bet"} \X {"0.9", "1.0", "1.02"}) \cup ({"th"} \X {"0.1", "0.9", "0.99"}) \cup ({"elb"} \X {"0.0", "2.0"})}
Gets == {[op |-> "get", what |-> "name", name |-> n] : n \in ParSet}
        \cup {[op |-> "get", what |-> "derived", name |-> n] : n \in Range(DerNames)}
        \cup {[op |-> "get", what |-> w, d |-> 1] : w \in {"full", "est", "dict", "dictest", "cov"}}
GetSet == {[op |-> "get", what |-> w, d |-> 1] : w \in {"full", "est", "dict", "dictest", "cov"}}
GetNamed == {[op |-> "get", what |-> w, name |-> s, d |-> 1] : w \in {"named", "namedest"}, s \in {"calib", "prior_mean", "init", "best", "adj_prior_mean"}}
GetNpar == {[op |-> "get", what |-> "nparname", name |-> n, vec |-> v, d |-> 1] : n \in {"phi_pi", "bet", "s_z"}, v \in VecG \cup VecB}
           \cup {[op |-> "get", what |-> "nparderived", name |-> n, vec |-> v, d |-> 1] : n \in Range(DerNames), v \in VecG \cup VecB}
           \cup {[op |-> "get", what |-> "nparset", name |-> n, value |-> "0.777", vec |-> v, d |-> 1] : n \in {"phi_pi", "s_u", "th"}, v \in VecG}
           \cup {[op |-> "get", what |-> "cov", vec |-> v, d |-> 1] : v \in VecG \cup VecB}
GetBad == {[op |-> "get", what |-> "bad", name |-> n, d |-> 1] : n \in {"nosuch", "y", "e_u", ""}}
Edit == {[op |-> "edit", d |-> 1]}

-----------------------------------------------------------------------------
Eps(T) == IF T = 3 THEN { << <<"0.1", "0.8", "0.0">>, <<"0.0", "0.0", "0.2">>, <<"-0.3", "0.2", "0.0">> >>,
                          << <<"0.0", "1.3", "0.0">>, <<"0.2", "-0.5", "0.1">>, <<"0.0", "0.6", "-0.1">> >>,
                          << <<"0.0", "0.0", "0.0">>, <<"0.0", "0.0", "0.0">>, <<"0.4", "0.9", "0.3">> >>,
                          << <<"0.93", "0.88", "-0.7">>, <<"0.0", "0.1", "0.0">>, <<"1.1", "1.0", "0.9">> >>,
                          << <<"0.3", "-1.0", "0.2">>, <<"0.1", "-0.2", "0.0">>, <<"0.0", "1.5", "-0.2">> >> }
          ELSE { << <<"0.0", "0.1", "0.0">>, <<"1.1", "1.0", "0.9">>, <<"0.0", "0.0", "0.0">>, <<"0.93", "0.88", "-0.7">>, <<"0.0", "0.2", "0.0">>, <<"0.03", "0.46", "0.35">> >>,
                 << <<"0.1", "0.8", "0.0">>, <<"0.0", "0.0", "0.2">>, <<"-0.3", "0.2", "0.0">>, <<"0.0", "0.0", "0.0">>, <<"0.2", "0.7", "0.1">>, <<"0.0", "-0.6", "0.0">> >>,
                 << <<"0.0", "1.2", "0.0">>, <<"0.3", "0.0", "0.0">>, <<"0.0", "0.0", "0.5">>, <<"-0.2", "0.1", "0.0">>, <<"0.0", "0.5", "-0.3">>, <<"0.1", "0.1", "0.1">> >>,
                 << <<"0.0", "0.4", "0.0">>, <<"0.0", "0.5", "0.0">>, <<"0.0", "0.3", "0.0">>, <<"0.0", "-0.2", "0.0">>, <<"0.0", "-0.9", "0.0">>, <<"0.0", "0.2", "0.0">> >> }
Mem(pars, T) == {[par |-> v, x0 |-> x, eps |-> e] : v \in pars, x \in 0..3, e \in Eps(T)}
Full(S) == {ParVec(p) : p \in S}
\* a member per parameter point, deterministic in its other parts, so that the sets stay small
Tuples(vs, T, k) == {[i \in 1..k |-> [par |-> vs[((s + i) % Len(vs)) + 1], x0 |-> (s + 2 * i) % 4, eps |-> SetToSeq(Eps(T))[((s + i * i) % Cardinality(Eps(T))) + 1]]] : s \in 0..13}
GoodVecs == [i \in 1..Len(Good) |-> ParVec(Good[i])]
GoodEst == [i \in 1..Len(Good) |-> EstVec(Good[i])]
BadVecs == [i \in 1..Len(Bad) |-> ParVec(Bad[i])]
Members(T) == UNION {Tuples(GoodVecs, T, k) : k \in 1..3} \cup Tuples(GoodEst, T, 2)

Irf0 == {[op |-> "irfb", shocks |-> s, T |-> 5, x0 |-> x, linear |-> l, d |-> 1] :
            s \in {<<<<"e_u", "1.1", 0>>>>, <<<<"e_u", "0.5", 1>>, <<"e_z", "0.4", 3>>>>, <<<<"e_r", "-0.6", 0>>, <<"e_u", "0.9", 0>>>>},
            x \in 0..3, l \in BOOLEAN}
        \cup {[op |-> "irfb", shocks |-> <<<<"e_u", "1.2", 0>>>>, T |-> 4, form |-> "two", bare |-> b, d |-> 1] : b \in BOOLEAN}
        \cup {[op |-> "irfb", shocks |-> <<<<s, "1.0", 0>>>>, T |-> 4, form |-> "str", bare |-> b, d |-> 1] : b \in BOOLEAN, s \in {"e_u", "e_z"}}
        \cup {[op |-> "irfb", shocks |-> <<<<"e_u", "0.4", 1>>>>, T |-> 5, setk |-> k, d |-> 1] : k \in {<<0, 2>>, <<1, 2>>, <<2, 1>>}}
Batches == {<<GoodVecs[1], GoodVecs[3]>>, <<GoodVecs[4], GoodVecs[2], GoodVecs[5]>>, <<GoodVecs[6]>>, <<GoodEst[2], GoodEst[3]>>}
BadBatches == {<<GoodVecs[2], BadVecs[1], GoodVecs[3]>>, <<BadVecs[2], GoodVecs[5]>>, <<GoodEst[3], EstVec(Bad[2])>>, <<BadVecs[4], BadVecs[1]>>}
IrfBatch == {[op |-> "irfb", shocks |-> s, T |-> 4, pars |-> b, linear |-> l, aslist |-> a, d |-> 1] : s \in {<<<<"e_u", "1.0", 0>>>>, <<<<"e_u", "0.7", 1>>, <<"e_z", "0.5", 2>>>>},
                b \in Batches \cup BadBatches, l \in BOOLEAN, a \in BOOLEAN}
            \cup {[op |-> "irfb", shocks |-> <<<<"e_u", "1.0", 0>>>>, T |-> 4, pars |-> b, x0 |-> 1, lmax |-> 1, kmax |-> 4, d |-> 1] : b \in Batches}
IrfPar == {[op |-> "irfb", shocks |-> <<<<"e_u", "1.0", 0>>>>, T |-> 4, pars |-> <<v>>, one |-> TRUE, linear |-> l, d |-> 1] : v \in VecG \cup VecB, l \in BOOLEAN}

Masks == { << <<"nan", "0.0", "nan">>, <<"nan", "nan", "nan">>, <<"nan", "nan", "2.0">> >>,
           << <<"0.0", "0.0", "0.0">>, <<"0.0", "0.0", "0.0">>, <<"0.0", "0.0", "0.0">> >>,
           << <<"nan", "nan", "nan">>, <<"nan", "nan", "nan">>, <<"nan", "nan", "nan">> >>,
           << <<"1.5", "nan", "0.3">>, <<"nan", "-1.0", "nan">>, <<"nan", "0.4", "nan">> >> }
Simus == {[op |-> "simu", members |-> m, linear |-> l, keys |-> k, d |-> 1] : m \in Members(3), l \in BOOLEAN, k \in BOOLEAN}
SimuMask == {[op |-> "simu", members |-> m, linear |-> l, mask |-> q, oper |-> o, frame |-> fr, d |-> 1] :
                m \in UNION {Tuples(GoodVecs, 3, k) : k \in 1..2}, l \in BOOLEAN, q \in Masks, o \in {"mul", "add", "rep"}, fr \in BOOLEAN}
Overs == {<<"pars">>, <<"resid">>, <<"init">>, <<"init", "resid">>}
SimuOver == {[op |-> "simu", members |-> m, linear |-> l, over |-> o, d |-> 1] : m \in Members(3), l \in BOOLEAN, o \in Overs}
SimuLK == {[op |-> "simu", members |-> m, linear |-> FALSE, lmax |-> 1, kmax |-> kk, d |-> 1] : m \in Tuples(GoodVecs, 3, 2), kk \in {2, 6}}

ObsOps == {[op |-> "obs", form |-> "single", seed |-> s, d |-> 1] : s \in 1..3}
          \cup {[op |-> "obs", form |-> "series", T |-> t, seed |-> s, d |-> 1] : s \in 1..2, t \in {1, 4, 8}}
          \cup {[op |-> "obs", form |-> "stack", T |-> t, m |-> m, seed |-> m + t, d |-> 1] : t \in {1, 3}, m \in {1, 2, 8}}
          \cup {[op |-> "obs", form |-> "pars", T |-> 3, m |-> Len(b), pars |-> b, seed |-> 4, d |-> 1] : b \in Batches}
IxOps == {[op |-> "ix", kind |-> "v", names |-> n] : n \in {<<"y">>, <<"r", "y">>, <<"vr", "z", "Pi">>, <<"y", "y">>, <<"nosuch">>, <<"y", "nosuch">>, <<"GDP">>, <<"e_u">>}}
         \cup {[op |-> "ix", kind |-> "v", names |-> <<s>>, bare |-> TRUE] : s \in {"dy", "u", "nope"}}
         \cup {[op |-> "ix", kind |-> "v", names |-> n, dontfail |-> TRUE] : n \in {<<"y", "nosuch", "r">>, <<"nosuch">>, <<"z">>}}
         \cup {[op |-> "ix", kind |-> "o", names |-> n] : n \in {<<"GDP">>, <<"FFR", "Infl">>, <<"y">>, <<"GDP", "zzz">>, <<"Infl", "GDP", "FFR">>}}
         \cup {[op |-> "ix", kind |-> "o", names |-> <<s>>, bare |-> TRUE] : s \in {"FFR", "r"}}
ES == {<<"0.93", "0.88", "-0.7">>, <<"1.1", "1.0", "0.9">>, <<"0.0", "0.0", "0.0">>, <<"0.1", "0.7", "0.0">>, <<"0.0", "1.2", "0.2">>, <<"-0.3", "-0.6", "0.1">>, <<"0.9", "0.4", "0.0">>}
TrajOps == {[op |-> "traj", x0 |-> x, e |-> e, d |-> 1] : x \in 0..3, e \in ES}
TrajLK == {[op |-> "traj", x0 |-> x, e |-> e, lk |-> lk, d |-> 1] : x \in 0..3, e \in ES, lk \in {<<0, 0>>, <<0, 1>>, <<1, 1>>, <<2, 3>>, <<0, 3>>, <<1, 0>>, <<0, -1>>, <<1, -1>>, <<-1, 0>>, <<-1, 2>>}}
KmapOps == {[op |-> "kmap", x0 |-> x, e |-> e, d |-> 1] : x \in 0..3, e \in ES}
KmapLK == {[op |-> "kmap", x0 |-> x, e |-> e, lk |-> lk, d |-> 1] : x \in {0, 3}, e \in ES, lk \in {<<0, 1>>, <<1, 1>>, <<2, 3>>, <<0, 2>>, <<1, -1>>, <<2, -1>>, <<-1, 0>>, <<-1, 3>>}}

-----------------------------------------------------------------------------
(* data: small pseudo-random numbers around the observables' means *)
RECURSIVE Lcg(_, _)
Lcg(s, i) == IF i = 0 THEN s ELSE (Lcg(s, i - 1) * 137 + 71) % 997
Noise(s, i, sc) == RMul(sc, RDiv(RSub(RNum(Lcg(s, i)), "498.0"), "498.0"))
DataSet(T, s, sc) == [t \in 1..T |-> [o \in 1..3 |-> RAdd(<<"0.4", "0.5", "0.55">>[o], Noise(s + 17 * o, 3 * t + o, sc))]]
Datas == {[op |-> "data", Z |-> DataSet(T, s, sc)] : T \in {4, 7}, s \in {11, 305, 640}, sc \in {"0.4", "1.1"}}
Data7 == {[op |-> "data", Z |-> DataSet(7, s, "0.6")] : s \in {11, 305, 640}}
Data4 == {[op |-> "data", Z |-> DataSet(4, s, "0.6")] : s \in {11, 305, 640}}
DataSim == {[op |-> "data", sim |-> s, T |-> T] : s \in 1..9, T \in {5, 8}}
RMats == { << <<"0.04", "0.0", "0.0">>, <<"0.0", "0.02", "0.0">>, <<"0.0", "0.0", "0.03">> >>,
           << <<"0.04", "0.01", "0.0">>, <<"0.01", "0.05", "0.0">>, <<"0.0", "0.0", "0.001">> >>,
           << <<"1.0", "0.0", "0.0">>, <<"0.0", "1.0", "0.0">>, <<"0.0", "0.0", "1.0">> >> }
RSmall == << <<"1e-4", "0.0", "0.0">>, <<"0.0", "1e-4", "0.0">>, <<"0.0", "0.0", "1e-4">> >>
PrepNLS == {[op |-> "prep", linear |-> FALSE, R |-> RSmall, N |-> n, lmax |-> 3, kmax |-> 8, seed |-> s, d |-> 1] : s \in {0, 3}, n \in {50, 70}}
RTiny == << <<"1e-06", "0.0", "0.0">>, <<"0.0", "1e-06", "0.0">>, <<"0.0", "0.0", "1e-06">> >>
PrepLin == {[op |-> "prep", linear |-> TRUE, R |-> r, d |-> 2] : r \in RMats}
PrepTiny == {[op |-> "prep", linear |-> TRUE, R |-> r, d |-> 2] : r \in RMats \cup {RTiny}}
PrepEns == {[op |-> "prep", linear |-> FALSE, R |-> r, N |-> n, lmax |-> l, kmax |-> k, seed |-> s, rf |-> f, d |-> 1] :
               r \in RMats, s \in {0, 3}, n \in {9, 14}, l \in {1, 3}, k \in {3, 8}, f \in BOOLEAN}
PrepNL == {[op |-> "prep", linear |-> FALSE, R |-> r, N |-> 20, lmax |-> 2, kmax |-> 6, seed |-> s, debug |-> b, d |-> 1] : r \in RMats, s \in {0, 3}, b \in BOOLEAN}
\* points of the posterior: inside, outside the prior, without solution
PostPts == EstGood \cup {EstVec([Calib EXCEPT ![q[1]] = q[2]]) : q \in {<<"phi_pi", "2.4">>, <<"rho_u", "1.3">>, <<"th", "0.95">>, <<"s_u", "-0.1">>, <<"phi_pi", "0.5">>,
                <<"phi_pi", "0.3">>, <<"sg", "-0.5">>, <<"rho_u", "0.0">>, <<"s_z", "0.7">>, <<"th", "0.35">>, <<"s_z", "-0.2">>}}
Lprobs == {[op |-> "lprob", vec |-> v, rs |-> s, d |-> 1] : v \in PostPts, s \in {5, 8}}
LprobG == {[op |-> "lprob", vec |-> v, rs |-> 3, d |-> 1] : v \in EstGood}
LprobT == {[op |-> "lprob", vec |-> v, temp |-> t, rs |-> 2, d |-> 1] : v \in PostPts, t \in {"0.0", "0.3", "1.0", "0.75", "1.6"}}
LprobGT == {[op |-> "lprob", vec |-> v, temp |-> t, rs |-> 2, d |-> 1] : v \in EstGood, t \in {"0.4", "0.0", "2.0"}}
\* within the prior, but without solution
LprobBad == {[op |-> "lprob", vec |-> EstVec([g EXCEPT !.phi_pi = v]), rs |-> 4, d |-> 1] : g \in GoodS, v \in {"0.5", "0.3"}}
Lpriors == {[op |-> "lprior", vec |-> v] : v \in PostPts}
Filters == {[op |-> "filter", d |-> 2]}
ExtLin == {[op |-> "extract", linear |-> TRUE, pars |-> b, seed |-> 3, d |-> 2] : b \in {<<GoodVecs[1]>>, <<GoodVecs[2], GoodVecs[3]>>, <<GoodVecs[4], GoodVecs[6], GoodVecs[5]>>, <<GoodVecs[1], GoodVecs[1]>>}}
ExtNL == {[op |-> "extract", linear |-> FALSE, pars |-> b, seed |-> 3, tol |-> <<"0.2", "0.2", "0.2">>, d |-> 1] : b \in {<<GoodVecs[1]>>, <<GoodVecs[2], GoodVecs[3]>>, <<GoodVecs[3]>>, <<GoodVecs[1], GoodVecs[1]>>}}
\* a sample with several draws, one vector, at the current parameters
ExtNL2 == {[op |-> "extract", linear |-> FALSE, pars |-> b, seed |-> 3, ns |-> 2, tol |-> <<"0.2", "0.2", "0.2">>, d |-> 1] : b \in {<<GoodVecs[1]>>, <<GoodVecs[2], GoodVecs[3]>>}}
          \cup {[op |-> "extract", linear |-> FALSE, pars |-> <<GoodVecs[j]>>, one |-> TRUE, seed |-> 5, tol |-> <<"0.2", "0.2", "0.2">>, d |-> 1] : j \in {1, 3}}
          \cup {[op |-> "extract", linear |-> FALSE, seed |-> 4, tol |-> <<"0.2", "0.2", "0.2">>, d |-> 1]}
\* operations with a horizon of their own, after which the model has its horizon again
MoveLK == UNION {WithLK([op |-> "nhd", members |-> m, linear |-> FALSE, d |-> 1]) : m \in Tuples(GoodVecs, 3, 1)}
          \cup UNION {WithLK([op |-> "gfevd", members |-> m, horizon |-> 1, linear |-> FALSE, means |-> FALSE, d |-> 1]) : m \in Tuples(GoodVecs, 3, 1)}
          \cup {[op |-> "extract", linear |-> TRUE, pars |-> <<GoodVecs[j]>>, seed |-> 3, lmax |-> lk[1], kmax |-> lk[2], d |-> 2] : j \in 2..4, lk \in {<<1, 3>>, <<2, 7>>}}
\* without a sample: at the current parameters
ExtCur == {[op |-> "extract", linear |-> TRUE, seed |-> s, d |-> 2] : s \in {0, 3}}
NhdOps(T) == {[op |-> "nhd", members |-> m, linear |-> l, d |-> 1] : m \in UNION {Tuples(GoodVecs, T, k) : k \in 1..4}, l \in BOOLEAN}
             \cup {[op |-> "nhd", members |-> m, linear |-> FALSE, lmax |-> 2, kmax |-> 6, d |-> 1] : m \in Tuples(GoodVecs, T, 1)}
SortOps == {[op |-> "sort"]}
\* contributions with all patterns of signs and zeros
SortTab == {[op |-> "sort", table |-> << <<a>>, <<b>>, <<c>> >>] : a, b, c \in {<<"0.5", "-1.0">>, <<"-0.25", "0.0">>, <<"0.0", "2.0">>, <<"1.5", "0.75">>, <<"-3.0", "-0.5">>}}
GfevdOps == {[op |-> "gfevd", members |-> m, horizon |-> h, linear |-> l, means |-> q, d |-> 1] : m \in UNION {Tuples(GoodVecs, 3, k) : k \in 1..3}, h \in {1, 3}, l \in BOOLEAN, q \in BOOLEAN}

\* batches for worker processes: many members, some without solution, which take differently long (dl: which ones)
Rot(q, s, k) == [i \in 1..k |-> q[((s + 3 * i) % Len(q)) + 1]]
PoolVecs == GoodVecs \o <<BadVecs[1], BadVecs[2]>>
PoolIrf == {[op |-> "irfb", shocks |-> <<<<"e_u", "0.9", 0>>, <<"e_z", "0.3", 2>>>>, T |-> t, pars |-> Rot(PoolVecs, s, k), linear |-> l, dl |-> d] :
                s \in 0..8, k \in {2, 5, 8}, l \in BOOLEAN, d \in {"down", "up", "zig"}, t \in {3, 5}}
           \cup {[op |-> "irfb", shocks |-> <<<<"e_u", "0.8", 1>>>>, T |-> 4, pars |-> Rot(GoodEst, s, 4), lmax |-> 2, kmax |-> 6, dl |-> d] : s \in 0..5, d \in {"down", "zig"}}
PoolSimu == {[op |-> "simu", members |-> m, linear |-> l, dl |-> d] : m \in UNION {Tuples(GoodVecs, 3, k) : k \in {1, 4, 7}}, l \in BOOLEAN, d \in {"down", "up", "zig"}}
            \cup {[op |-> "simu", members |-> m, linear |-> FALSE, mask |-> q, oper |-> o, dl |-> "down"] : m \in Tuples(GoodVecs, 3, 3), q \in Masks, o \in {"mul", "rep"}}
PoolN == {[op |-> "pool", n |-> k] : k \in {-1, 1, 2}}
PoolPrior == {[op |-> "prior", n |-> k, seed |-> s, chk |-> FALSE] : k \in {1, 3, 6}, s \in {1, 11, 400}}
PoolPriorL == {[op |-> "prior", n |-> k, seed |-> s, chk |-> TRUE] : k \in {2, 3}, s \in {1, 400}}
PoolMcmc == {[op |-> "mcmc", n |-> k, seed |-> s] : k \in {3, 4}, s \in {1, 2}}
PoolExt == {[op |-> "extract", linear |-> TRUE, pars |-> Rot(GoodVecs, s, k), seed |-> 3, dl |-> "down"] : s \in 0..6, k \in {1, 2, 4}}

-----------------------------------------------------------------------------
Class(c) ==
    CASE c = "setgood" -> SetGood [] c = "setvec" -> SetVec [] c = "setveclk" -> SetVecLK [] c = "setnamed" -> SetNamed [] c = "setnone" -> SetNone
      [] c = "setgrid" -> SetGrid [] c = "setonegrid" -> SetOneGrid [] c = "setfail" -> SetFail [] c = "gets" -> Gets [] c = "getset" -> GetSet [] c = "getnamed" -> GetNamed [] c = "getnpar" -> GetNpar [] c = "getbad" -> GetBad
      [] c = "edit" -> Edit [] c = "irf" -> Irf0 [] c = "irfbatch" -> IrfBatch [] c = "irfpar" -> IrfPar
      [] c = "simu" -> Simus [] c = "simumask" -> SimuMask [] c = "simulk" -> SimuLK [] c = "simuover" -> SimuOver [] c = "movelk" -> MoveLK [] c = "extnl2" -> ExtNL2 [] c = "obs" -> ObsOps [] c = "ix" -> IxOps
      [] c = "traj" -> TrajOps [] c = "trajlk" -> TrajLK [] c = "kmap" -> KmapOps [] c = "kmaplk" -> KmapLK
      [] c = "data" -> Datas [] c = "datasim" -> DataSim [] c = "prepnls" -> PrepNLS [] c = "data7" -> Data7 [] c = "data4" -> Data4 [] c = "preplin" -> PrepLin [] c = "preptiny" -> PrepTiny [] c = "prepnl" -> PrepNL [] c = "prepens" -> PrepEns [] c = "datasim5" -> {o \in DataSim : o.T = 5}
      [] c = "lprob" -> Lprobs [] c = "lprobg" -> LprobG [] c = "lprobbad" -> LprobBad [] c = "lprobt" -> LprobT [] c = "lprobgt" -> LprobGT [] c = "lprior" -> Lpriors
      [] c = "filter" -> Filters [] c = "extlin" -> ExtLin [] c = "extnl" -> ExtNL [] c = "extcur" -> ExtCur
      [] c = "nhd3" -> NhdOps(3) [] c = "nhd6" -> NhdOps(6) [] c = "sort" -> SortOps [] c = "sorttab" -> SortTab [] c = "gfevd" -> GfevdOps
      [] c = "poolirf" -> PoolIrf [] c = "poolsimu" -> PoolSimu [] c = "pooln" -> PoolN [] c = "poolprior" -> PoolPrior [] c = "poolpriorl" -> PoolPriorL [] c = "poolmcmc" -> PoolMcmc [] c = "poolext" -> PoolExt

Starts == {<<[op |-> "read", zero |-> z], [op |-> "set", how |-> "named", name |-> "calib", lmax |-> 2, kmax |-> 5, d |-> 1]>> : z \in (IF Fam = "par" THEN BOOLEAN ELSE {FALSE})}
\* what a session of a family consists of: a list of classes, or a list of lists to choose from at that position
Mix(S, n) == [i \in 1..n |-> S]
Program ==
    CASE Fam = "par"  -> Mix(<<"setgood", "setvec", "setveclk", "setnamed", "setfail", "gets", "getset", "getset", "getnamed", "getnpar", "getbad", "edit", "edit">>, 11)
      [] Fam = "state" -> Mix(<<"setgood", "setveclk", "setfail", "setfail", "setnone", "getnpar", "getnamed", "edit", "irf", "irfbatch", "irfpar", "simu", "obs", "traj", "kmap">>, 8)
      [] Fam = "sol" -> Mix(<<"setgrid", "setonegrid">>, 10)
      [] Fam = "solest" -> <<<<"data4">>, <<"preplin">>>> \o Mix(<<"setgrid", "setonegrid", "lprob">>, 6)
      [] Fam = "stest" -> <<<<"data4">>, <<"preplin">>>> \o Mix(<<"setgood", "setvec", "setveclk", "setnone", "setfail", "lprob", "lprob", "lprobt", "filter", "extlin", "nhd3", "gfevd", "simu">>, 6)
      [] Fam = "stmove" -> <<<<"data4">>, <<"preplin">>, <<"setveclk">>, <<"movelk">>, <<"setgood", "setnone", "lprobg">>, <<"movelk">>, <<"setgood", "setfail">>, <<"setgood">>>>
      [] Fam = "stlk" -> <<<<"data4">>, <<"preplin">>, <<"setveclk">>, <<"lprobbad">>, <<"setgood", "setvec", "setnone", "irfpar", "simu">>, <<"setfail", "lprobbad", "irf", "filter">>, <<"setgood", "lprobg">>, <<"setgood">>>>
      [] Fam = "irf" -> <<<<"setveclk">>>> \o Mix(<<"irf", "irfbatch", "irfbatch", "irfpar">>, 3) \o <<<<"setvec">>>> \o Mix(<<"irf", "irfbatch", "irfpar">>, 2)
      [] Fam = "sim" -> <<<<"setveclk">>>> \o Mix(<<"simu", "simumask", "simumask", "simulk", "simuover">>, 4)
      [] Fam = "obs" -> Mix(<<"setvec", "obs", "obs", "ix", "ix">>, 8)
      [] Fam = "traj" -> Mix(<<"setveclk", "setgood", "traj", "trajlk", "kmap", "kmaplk">>, 8)
      [] Fam = "lin" -> <<<<"data">>, <<"preptiny">>, <<"filter">>>> \o Mix(<<"setvec", "setveclk", "setgood", "lprobg", "data4">>, 1) \o <<<<"filter">>>> \o Mix(<<"setvec", "lprobg", "lprob", "filter">>, 2) \o <<<<"filter">>>>
      [] Fam = "post" -> <<<<"data">>, <<"preplin">>>> \o Mix(<<"lprob", "lprob", "lprobt", "lprior", "setvec", "setfail">>, 8)
      [] Fam = "postnl" -> <<<<"data4">>, <<"prepnl">>, <<"lprobg">>>> \o Mix(<<"lprobg", "lprobgt", "lprob", "setvec">>, 4)
      [] Fam = "enkf" -> <<<<"datasim5", "data4">>, <<"prepens">>, <<"lprobg", "lprob">>>> \o Mix(<<"lprobg", "lprobgt", "lprob", "setvec", "setgood", "filter">>, 2) \o <<<<"filter">>>>
      [] Fam = "ext" -> <<<<"data">>, <<"preptiny">>>> \o Mix(<<"extlin", "setvec">>, 1) \o <<<<"extlin", "extcur">>, <<"filter">>>>
      [] Fam = "extnl" -> <<<<"datasim">>, <<"prepnls">>, <<"extnl", "extnl2">>>>
      [] Fam = "nhd" -> <<<<"data4">>, <<"nhd3">>, <<"sort">>, <<"nhd3">>, <<"sorttab">>, <<"sorttab">>, <<"data7">>, <<"nhd6">>, <<"sort">>>>
      [] Fam = "pool" -> <<<<"pooln">>>> \o Mix(<<"poolirf", "poolsimu", "poolirf", "poolprior", "setvec", "setfail", "pooln">>, 5)
      [] Fam = "poolest" -> <<<<"data7">>, <<"preplin">>>> \o Mix(<<"poolirf", "poolsimu", "poolext", "poolprior", "poolpriorl", "poolmcmc", "lprobg", "filter", "setvec", "setfail", "pooln", "gfevd">>, 6)
      [] Fam = "poolnl" -> <<<<"datasim">>, <<"prepnls">>, <<"extnl">>, <<"poolsimu">>, <<"lprobg">>>>
      [] Fam = "gfevd" -> <<<<"gfevd">>, <<"setvec">>, <<"gfevd">>>>
Pos == Len(ops) - 1
GenInit == ops \in Starts /\ cls = ""
GenNext ==
    \/ /\ cls = "" /\ Pos <= Len(Program)
       /\ \E j \in DOMAIN Program[Pos] : cls' = Program[Pos][j]
       /\ UNCHANGED ops
    \/ /\ cls \notin {"", "end"}
       /\ \E o \in Class(cls) : ops' = Append(ops, o)
       /\ cls' = ""
    \/ /\ cls = "" /\ Pos = Len(Program) + 1
       /\ PrintT("@@" \o ToJson([ops |-> ops]))
       /\ cls' = "end" /\ UNCHANGED ops
===============================================================================
