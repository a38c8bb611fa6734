--------------------------------- MODULE Sim ---------------------------------
(***************************************************************************)
(* Simulation of a model with an occasionally binding constraint, as a     *)
(* state machine: a state is a history of variables and shocks together    *)
(* with the laws of all regimes; a transition is one simulated period.     *)
(* Judge* state what an observed result of the real code must satisfy in a *)
(* specification state; they return the set of violated clauses, each      *)
(* tagged with its property.                                               *)
(***************************************************************************)
EXTENDS OBC

Tol == "1e-6"

\* specification state of a solved model
Fresh(m, lmax, kmax) ==
    LET M == TLCEval(Mats(m))
        sol == TLCEval(Solve(M))
        h == Horizon(lmax, kmax)
        full == IF sol.kind = "unique" THEN Table(M, m.xbar, [P |-> sol.P, Q |-> sol.Q, g |-> sol.g], h[1], h[2]) ELSE <<>>
        tab == TLCEval(IF WellConditioned(full) THEN full ELSE <<>>)
    IN  [m |-> m, M |-> M, sol |-> sol, L |-> h[1], K |-> h[2],
         tab |-> tab, rt |-> IF tab = <<>> THEN <<>> ELSE RuleTable(M, tab, h[1], h[2]),
         hist |-> <<>>, eh |-> <<>>]

Past(st, d)  == IF d <= Len(st.hist) THEN st.hist[d] ELSE ZeroVars(st.m)
PastE(st, d) == IF d <= Len(st.eh) THEN st.eh[d] ELSE ZeroShocks(st.m)
Lag(st) == LagVector(st.m, st.M, LAMBDA d : Past(st, d), LAMBDA d : PastE(st, d))

FullShock(m, e) == [s \in ShockSet(m) |-> IF s \in DOMAIN e THEN e[s] ELSE "0.0"]
Advance(st, x, e) == [st EXCEPT !.hist = <<x>> \o @, !.eh = <<e>> \o @]

\* equal up to rounding: relative to the value itself, and far more tightly to the largest variable
Near(x, y, norm) == RClose(x, y, Tol) \/ RLeq(RAbs(RSub(x, y)), RMul("1e-9", norm))
CloseNames(names, a, b) ==
    LET norm == RMax(VMaxAbs([i \in 1..Len(names) |-> a[names[i]]]), VMaxAbs([i \in 1..Len(names) |-> b[names[i]]]))
    IN  \A i \in 1..Len(names) : Near(a[names[i]], b[names[i]], norm)
CloseRec(m, a, b) == CloseNames(m.vars, a, b)
SizeOf(m, a) == VMaxAbs([i \in 1..Len(m.vars) |-> a[m.vars[i]]])

IsMove(st, l, k, e, x) == CloseRec(st.m, VarsOf(st.m, Move(Law(st.tab, l, k), Lag(st), ShockVec(st.m, e))), x)

\* selection of the regime: what the specification allows
Allowed(st, e, linear, setk) ==
    IF linear THEN {<<0, 0, 0>>}
    ELSE IF setk # <<>> THEN {<<setk[1], setk[2], 0>>}
    ELSE FindSet(st.rt, st.L, st.K, Lag(st), ShockVec(st.m, e), st.m.xbar)

InTable(st, l, k) == l \in 0..st.L /\ k \in 0..st.K

\* the rule value in the current period
RuleNow(st, x, e) ==
    LET C == st.m.con.terms
        X(d) == IF d = 0 THEN x ELSE Past(st, -d)
        E(d) == IF d = 0 THEN e ELSE PastE(st, -d)
    IN  Residual(st.m, C, X, E)

\* a residual is zero up to rounding, relative to its terms or (far more tightly) to the largest variable around
ResOK(m, eq, X(_), E(_), norm) ==
    LET r == RAbs(Residual(m, eq, X, E)) IN
    RLeq(r, RMul(Tol, RAdd("1.0", Scale(m, eq, X, E)))) \/ RLeq(r, RMul("1e-9", norm))
NormOf(st, p) == VMaxAbs([t \in 1..Len(p) |-> SizeOf(st.m, p[t])] \o [t \in 1..Len(st.hist) |-> SizeOf(st.m, st.hist[t])])

\* written equations along an expected path p (p[1] is today), no further shocks
PathBad(st, p, e) ==
    LET m == st.m
        X(t, d) == IF t + d >= 1 THEN p[t + d] ELSE Past(st, 1 - (t + d))
        E(t, d) == IF t + d = 1 THEN e ELSE IF t + d > 1 THEN ZeroShocks(m) ELSE PastE(st, 1 - (t + d))
        norm == TLCEval(NormOf(st, p))
    IN  {<<"C01", "equation", q, t>> : q \in {q \in 1..Len(m.eqs) :
            \E t \in 1..(Len(p) - EqLead(m.eqs[q])) : ~ResOK(m, m.eqs[q], LAMBDA d : X(t, d), LAMBDA d : E(t, d), norm)}, t \in {0}}

\* the constrained variable along the expected path of regime <<l, k>>
ConBad(st, p, e, l, k) ==
    LET m == st.m
        X(t, d) == IF t + d >= 1 THEN p[t + d] ELSE Past(st, 1 - (t + d))
        E(t, d) == IF t + d = 1 THEN e ELSE IF t + d > 1 THEN ZeroShocks(m) ELSE PastE(st, 1 - (t + d))
        full == m.con.terms \o <<<<"-1.0", m.con.var, 0>>>>
        norm == TLCEval(NormOf(st, p))
        bad(t) == LET g == Ahead(l, k, t - 1) IN
                  IF Binds(g[1], g[2]) THEN ~Near(p[t][m.con.var], m.xbar, norm)
                  ELSE ~ResOK(m, full, LAMBDA d : X(t, d), LAMBDA d : E(t, d), norm)
    IN  IF \E t \in 1..Len(p) : bad(t) THEN {<<"C02", "constraint along expected path">>} ELSE {}

\* r = max(rule, xbar), in a period whose durations were found by the model
ComplBad(st, x, e) ==
    LET r == x[st.m.con.var] IN
    IF Near(r, RMax(RuleNow(st, x, e), st.m.xbar), SizeOf(st.m, x)) THEN {} ELSE {<<"C02", "max(rule, bound)">>}

\* expectations that are consistent with durations found by the model
ConsBad(st, e, l, k) ==
    LET lag == Lag(st)
        ev == ShockVec(st.m, e)
        ok(sg) == IF l = 0 /\ k = 0 THEN Slack(st.rt, st.L, lag, ev, st.m.xbar, sg)
                  ELSE Consistent(st.rt, l, k, lag, ev, st.m.xbar, sg)
    IN  IF ~InTable(st, l, k) \/ ok("lenient") THEN {} ELSE {<<"C02", "the expected path contradicts the durations", <<l, k>>>>}

JudgeStep(st, ev) ==
    LET e == FullShock(st.m, ev.e)
        setk == IF "setk" \in DOMAIN ev THEN ev.setk ELSE <<>>
        lin == "linear" \in DOMAIN ev /\ ev.linear
        allowed == TLCEval(Allowed(st, e, lin, setk))
    IN  (IF <<ev.l, ev.k, ev.flag>> \in allowed THEN {}
         ELSE {<<IF lin THEN "C02" ELSE "C03", "durations", <<ev.l, ev.k, ev.flag>>, allowed>>})
        \cup
        (IF ~InTable(st, ev.l, ev.k) THEN {<<"C03", "durations out of range">>}
         ELSE IF IsMove(st, ev.l, ev.k, e, ev.x) THEN {}
         ELSE {<<"C03", "state is not the one implied by the durations">>})
        \cup (IF ~lin /\ setk = <<>> /\ ev.flag = 0 THEN ComplBad(st, ev.x, e) \cup ConsBad(st, e, ev.l, ev.k) ELSE {})
        \cup PathBad(st, ev.path, e)
        \cup (IF InTable(st, ev.l, ev.k) THEN ConBad(st, ev.path, e, ev.l, ev.k) ELSE {})

\* one-period probes from the same state, right before and right after a change of the durations
JudgeEdge(st, ev) == UNION {JudgeStep(st, ev.probes[j]) : j \in 1..Len(ev.probes)}

-----------------------------------------------------------------------------
(* Impulse responses.  shocks: sequence of <<name, size, period>>.          *)
ShockAt(m, shocks, t) ==
    LET now == SelectSeq(shocks, LAMBDA s : s[3] = t)
    IN  [s \in ShockSet(m) |-> LET mine == SelectSeq(now, LAMBDA q : q[1] = s)
                               IN  IF mine = <<>> THEN "0.0" ELSE mine[Len(mine)][2]]
NoShock(m, e) == \A s \in ShockSet(m) : REq(e[s], "0.0")

\* what is prescribed in period t, given the durations of the period before:
\* a forced regime, or <<>> if the model is to find it
Prescribed(shocks, setk, prev, t, nosh) ==
    LET force == (setk = <<>>) /\ nosh /\ (\E i \in 1..Len(shocks) : shocks[i][3] > 0)
                 /\ (prev[1] > 0 \/ prev[2] > 1)
    IN  IF force THEN Succ(prev[1], prev[2])
        ELSE IF setk = <<>> THEN <<>>
        ELSE IF setk[1] - t >= 0 THEN <<setk[1] - t, setk[2]>>
        ELSE <<0, IF setk[2] + setk[1] - t > 0 THEN setk[2] + setk[1] - t ELSE 0>>

RECURSIVE JudgeIrf(_, _, _, _)
JudgeIrf(st, ev, t, prev) ==
    IF t = ev.T THEN {}
    ELSE LET m == st.m
             e == TLCEval(ShockAt(m, ev.shocks, t))
             lin == "linear" \in DOMAIN ev /\ ev.linear
             setk == IF "setk" \in DOMAIN ev THEN ev.setk ELSE <<>>
             pre == IF lin THEN <<>> ELSE Prescribed(ev.shocks, setk, prev, t, NoShock(m, e))
             x == ev.X[t + 1]
             lk == <<ev.L[t + 1], ev.K[t + 1]>>
             allowed == TLCEval(Allowed(st, e, lin, pre))
         IN  (IF \E a \in allowed : <<a[1], a[2]>> = lk THEN {}
              ELSE {<<"C04", "durations", t, lk, allowed>>})
             \cup
             (IF ~InTable(st, lk[1], lk[2]) THEN {<<"C04", "durations out of range", t>>}
              ELSE IF IsMove(st, lk[1], lk[2], e, x) THEN {}
              ELSE {<<p, "state", t>> : p \in {"C04", "C01"}})
             \cup (IF lin /\ lk # <<0, 0>> THEN {<<"C02", "durations in linear mode", t, lk>>}
                   ELSE IF ~lin /\ pre = <<>> /\ ev.flag = 0 THEN ComplBad(st, x, e) \cup ConsBad(st, e, lk[1], lk[2])
                   ELSE {})
             \cup (IF Cardinality(allowed) = 1 /\ (\E a \in allowed : a[3] > 0) /\ ev.flag = 0 THEN {<<"C04", "missing flag", t>>} ELSE {})
             \cup JudgeIrf(Advance(st, x, e), ev, t + 1, lk)

IrfFlags(st, ev) == {}

\* written equations along a linear response, with the realised path as expectation
LinearIrfBad(st, ev) ==
    LET m == st.m
        T == ev.T
        Es == [t \in 1..T |-> ShockAt(m, ev.shocks, t - 1)]
        quiet(t, n) == \A s \in (t + 1)..(t + n) : s <= T => NoShock(m, Es[s])
        X(t, d) == IF t + d >= 1 THEN ev.X[t + d] ELSE Past(st, 1 - (t + d))
        E(t, d) == IF t + d >= 1 THEN Es[t + d] ELSE PastE(st, 1 - (t + d))
        full == m.con.terms \o <<<<"-1.0", m.con.var, 0>>>>
        eqs == Append(m.eqs, full)
        norm == TLCEval(NormOf(st, ev.X))
    IN  {<<"C01", "equation", q>> : q \in {q \in 1..Len(eqs) :
            \E t \in 1..(T - EqLead(eqs[q])) : quiet(t, EqLead(eqs[q])) /\ ~ResOK(m, eqs[q], LAMBDA d : X(t, d), LAMBDA d : E(t, d), norm)}}

JudgeIrfs(st, ev) ==
    (IF Len(ev.X) # ev.T \/ Len(ev.L) # ev.T \/ Len(ev.K) # ev.T THEN {<<"C04", "length">>}
     ELSE JudgeIrf(st, ev, 0, <<0, 0>>)
          \cup (IF "linear" \in DOMAIN ev /\ ev.linear
                THEN LinearIrfBad(st, ev) \cup (IF ev.flag # 0 THEN {<<"C04", "flag in linear mode">>} ELSE {})
                ELSE {}))
    \cup (IF \A v \in VarSet(st.m) : \E i \in 1..Len(ev.cols) : ev.cols[i] = v THEN {} ELSE {<<"C04", "columns">>})
=============================================================================
