------------------------------- MODULE Sampler -------------------------------
(***************************************************************************)
(* Drawing parameters from the prior.  The prior is declared in the model  *)
(* file: a sequence of [name, dist, a, b, form] (form: 3 or 6 entries).    *)
(* State: the model's parameters, whether an estimation was prepared, and  *)
(* all samples drawn so far.                                               *)
(***************************************************************************)
EXTENDS Session

With(p, prior, v) == [n \in ParSet |-> IF \E i \in DOMAIN prior : prior[i].name = n THEN v[CHOOSE i \in DOMAIN prior : prior[i].name = n] ELSE p[n]]
MeanOf(q) == IF q.dist = "uniform" THEN RDiv(RAdd(q.a, q.b), "2.0") ELSE q.a
SdOf(q) == IF q.dist = "uniform" THEN RDiv(RSub(q.b, q.a), "3.4641016151377544") ELSE q.b
LgOf(prior, v) == VSum([i \in DOMAIN prior |-> LgPrior(prior[i].dist, v[i], prior[i].a, prior[i].b)])
\* distribution function at x, by Simpson's rule on [from, x] (densities vanish or are negligible at the lower end)
Low(q) == CASE q.dist = "normal" -> RSub(q.a, RMul("7.0", q.b)) [] q.dist = "uniform" -> q.a [] OTHER -> "0.0"
Pts == 160
Cdf(q, x) ==
    LET lo == Low(q)
        h == RDiv(RSub(x, lo), RNum(Pts))
        node(j) == RAdd(lo, RMul(RNum(j), h))
        dens(j) == IF j = 0 /\ q.dist # "uniform" THEN "0.0" ELSE RExp(LgPrior(q.dist, node(j), q.a, q.b))
        w(j) == IF j \in {0, Pts} THEN "1.0" ELSE IF j % 2 = 1 THEN "4.0" ELSE "2.0"
    IN  RDiv(RMul(h, VSum([j \in 1..(Pts + 1) |-> RMul(w(j - 1), dens(j - 1))])), "3.0")
Share(col, x) == RDiv(RNum(Cardinality({i \in DOMAIN col : RLeq(col[i], x)})), RNum(Len(col)))

MStart(trace) == [par |-> Calib, prior |-> <<>>, prep |-> FALSE, seen |-> <<>>]
Key(st, ev) == <<ev.via, ev.n, ev.seed, ev.try, ev.chk, IF ev.try /\ ~ev.chk /\ ev.via = "sampler" THEN ParVec(st.par) ELSE <<>> >>

SampleBad(st, ev) ==
    LET S == ev.S
        pr == st.prior
        base == IF ev.via = "sampler" /\ ~ev.chk THEN st.par ELSE Calib
        rows == DOMAIN S
        shape == Len(S) = ev.n /\ \A i \in rows : Len(S[i]) = Len(pr)
        same == SelectSeq(st.seen, LAMBDA q : q[1] = Key(st, ev))
        big == ev.n >= 200
        col(j) == [i \in rows |-> S[i][j]]
        mean(j) == RDiv(VSum(col(j)), RNum(ev.n))
        badmean == {j \in DOMAIN pr : RGt(RAbs(RSub(mean(j), MeanOf(pr[j]))), RMul("6.0", RDiv(SdOf(pr[j]), RSqrt(RNum(ev.n)))))}
        at(j) == MeanOf(pr[j])
        badshare == {j \in DOMAIN pr : \E x \in {at(j), RSub(at(j), RMul("0.5", SdOf(pr[j]))), RMul("0.8", at(j))} :
                        RLt(Low(pr[j]), x) /\ RGt(RAbs(RSub(Share(col(j), x), Cdf(pr[j], x))), RDiv("2.7", RSqrt(RNum(ev.n))))}
    IN  IF ~ev.ok THEN {<<"C22", "exception", ev.exc, ev.msg>>}
        ELSE IF ~shape THEN {<<"C22", "shape", Len(S)>>}
        ELSE {<<"C22", "outside the support", pr[j].name, S[i][j]>> : <<i, j>> \in {<<i, j>> \in rows \X DOMAIN pr : ~InSupport(pr[j].dist, S[i][j], pr[j].a, pr[j].b)}}
             \cup (IF ev.try \/ ev.chk
                   THEN {<<"C22", "no solution", S[i]>> : i \in {i \in rows : Accept(TLCEval(With(base, pr, S[i]))) = "fail"}} ELSE {})
             \cup (IF ev.chk THEN {<<"C22", "posterior not finite", S[i], ev.post[i]>> : i \in {i \in rows : ~RIsNum(ev.post[i])}} ELSE {})
             \cup (IF Cardinality({S[i] : i \in rows}) = ev.n THEN {} ELSE {<<"C22", "members are not different draws">>})
             \cup (IF \A i \in rows : \A j, k \in DOMAIN pr : j # k /\ pr[j].dist = pr[k].dist => ~REq(RDiv(RSub(S[i][j], MeanOf(pr[j])), SdOf(pr[j])), RDiv(RSub(S[i][k], MeanOf(pr[k])), SdOf(pr[k])))
                   THEN {} ELSE {<<"C22", "parameters share their draws">>})
             \cup (IF \A i \in DOMAIN same : same[i][2] = S THEN {} ELSE {<<"C22", "equal seeds give different samples">>})
             \cup (IF "lp" \in DOMAIN ev THEN {<<"C22", "log prior", S[i], ev.lp[i], LgOf(pr, S[i])>> : i \in {i \in DOMAIN ev.lp : ~RClose(ev.lp[i], LgOf(pr, S[i]), "1e-5")}} ELSE {})
             \cup (IF big THEN {<<"C22", "mean", pr[j], mean(j)>> : j \in badmean} \cup {<<"C22", "distribution", pr[j]>> : j \in badshare} ELSE {})
             \cup (IF "rest" \in DOMAIN ev /\ \E i \in DOMAIN ev.rest : ~SamePar(ToPar(ev.rest[i]), With(Calib, pr, S[i])) THEN {<<"C22", "calibrated parameters">>} ELSE {})
             \cup (IF SamePar(ToPar(ev.par), st.par) THEN {} ELSE {<<"C22", "the parameters of the model were changed">>})

MJudge(st, ev, trace) ==
    CASE ev.op = "read" -> [st |-> [st EXCEPT !.prior = ev.prior], bad |-> IF ev.ok THEN {} ELSE {<<"C22", "not readable", ev.exc, ev.msg>>}]
      [] ev.op = "set" -> [st |-> IF ev.ok THEN [st EXCEPT !.par[ev.name] = ev.value] ELSE st, bad |-> {}]
      [] ev.op = "prep" -> [st |-> IF ev.ok THEN [st EXCEPT !.par = With(Calib, st.prior, [i \in DOMAIN st.prior |-> MeanOf(st.prior[i])]), !.prep = TRUE] ELSE st,
                            bad |-> IF ev.ok THEN {} ELSE {<<"C22", "preparation failed", ev.exc, ev.msg>>}]
      [] ev.op = "sample" -> [st |-> IF ev.ok THEN [st EXCEPT !.seen = Append(@, <<Key(st, ev), ev.S>>)] ELSE st, bad |-> SampleBad(st, ev)]
===============================================================================
