------------------------------- MODULE ParaFunc ------------------------------
(***************************************************************************)
(* Derived parameters.  A definition is [t |-> template, a, b |-> operand  *)
(* names]; a model has a sequence of <<name, definition>> in any order.    *)
(* The meaning of a set of definitions is the least fixed point: a derived *)
(* parameter has a value as soon as its operands have one.  Definitions    *)
(* that never get a value are circular or undefined.                       *)
(***************************************************************************)
EXTENDS Session

-----------------------------------------------------------------------------
(* the normal distribution, by series *)
RECURSIVE CdfSum(_, _, _, _)
CdfSum(x, term, n, acc) == IF n > 18 THEN acc ELSE LET t2 == RDiv(RMul(term, RMul(x, x)), RNum(2 * n + 1)) IN CdfSum(x, t2, n + 1, RAdd(acc, t2))
NPdf(x) == RDiv(RExp(RDiv(RMul(x, x), "-2.0")), "2.5066282746310002")
NCdf(x) == RAdd("0.5", RMul(NPdf(x), CdfSum(x, x, 1, x)))
RECURSIVE Bis(_, _, _, _)
Bis(q, lo, hi, n) == IF n = 0 THEN RDiv(RAdd(lo, hi), "2.0")
                     ELSE LET m == TLCEval(RDiv(RAdd(lo, hi), "2.0")) IN IF RLt(NCdf(m), q) THEN Bis(q, m, hi, n - 1) ELSE Bis(q, lo, m, n - 1)
NPpf(q) == Bis(q, "-1.0", "1.0", 36)      \* the arguments lie in [0.3, 0.7]

Sq(x) == RMul(x, x)
OnePl(x) == RAdd(One, Sq(x))
Squash(x) == RDiv(x, OnePl(x))
\* meaning of the templates; harness/sc_pf.py writes the same as text
Value(t, a, b, fv) ==
    CASE t = "add" -> RAdd(a, b)
      [] t = "sub" -> RSub(a, b)
      [] t = "mul" -> RDiv(RMul("0.7", RMul(a, b)), OnePl(a))
      [] t = "sqrt" -> RSub(RSqrt(OnePl(a)), b)
      [] t = "exp" -> RAdd(RExp(RNeg(Sq(a))), RMul("0.1", b))
      [] t = "log" -> RMul(RLog(RAdd("2.0", Sq(a))), Squash(b))
      [] t = "norm" -> RSub(NCdf(Squash(a)), NPdf(Squash(b)))
      [] t = "ppf" -> RAdd(NPpf(RAdd("0.3", RMul("0.4", RDiv(Sq(a), OnePl(a))))), RMul("0.1", b))
      [] t = "inv" -> RSub(NPpf(RSub("0.7", RMul("0.4", RDiv(Sq(b), OnePl(b))))), RMul("0.1", a))
      [] t = "neg" -> RDiv(RNeg(a), "2.0")
      [] t = "lin" -> RAdd(RMul(IF fv = "g2" THEN "0.9" ELSE "0.3", a), RMul("0.5", b))       \* functions file
      [] t = "sat" -> RDiv(a, RAdd(One, RAbs(a)))                                             \* functions file
      [] t = "const" -> "0.25"
      \* what enters the model
      [] t = "kap" -> RMul(RAdd(One, RMul("0.3", Squash(a))), RAdd(RDiv(RMul(RSub(One, b), "0.3"), b), "0.05"))
      [] t = "xbar" -> RSub(RMul("-0.8", RAdd(One, RMul("0.5", Squash(a)))), RMul("0.1", Sq(Squash(b))))
      [] t = "sr2" -> RMul("0.4", RAdd(One, RMul("0.5", Squash(a))))
NeedsFile(t) == t \in {"lin", "sat"}
Unary(t) == t \in {"neg", "sat", "sr2"}
Operands(d) == IF d.t = "const" THEN {} ELSE IF Unary(d.t) THEN {d.a} ELSE {d.a, d.b}

\* defs: sequence of <<name, definition>>; p: parameters; the functions file fv ("none": there is none)
Names(defs) == {defs[i][1] : i \in DOMAIN defs}
DefOf(defs, n) == defs[CHOOSE i \in DOMAIN defs : defs[i][1] = n][2]
RECURSIVE Fix(_, _, _)
Fix(defs, fv, val) ==
    LET ready == {n \in Names(defs) \ DOMAIN val : LET d == DefOf(defs, n) IN
                    Operands(d) \subseteq DOMAIN val /\ (NeedsFile(d.t) => fv # "none")}
        get(d, x) == IF x \in DOMAIN val THEN val[x] ELSE "0.0"
        new == [n \in ready |-> LET d == DefOf(defs, n) IN Value(d.t, get(d, d.a), get(d, d.b), fv)]
    IN  IF ready = {} THEN val ELSE Fix(defs, fv, TLCEval([n \in DOMAIN val \cup ready |-> IF n \in ready THEN new[n] ELSE val[n]]))
Values(defs, fv, p) == Fix(defs, fv, p)
Defined(defs, fv) == Names(defs) \subseteq DOMAIN Fix(defs, fv, Calib)

\* the model with these definitions
PfDerived(c, p) == TLCEval(Values(c.defs, c.fv, p))
PfModel(c, p) == LET v == PfDerived(c, p) IN PModelD(p, [kap |-> v["kap"], x_bar |-> v["x_bar"]])
PfFresh(c, p, L, K) == FreshM(PfModel(c, p), L, K)
PfObs(c, p, x) == << RAdd(RAdd(x["dy"], p.ybar), PfDerived(c, p)["oc"]), RAdd(x["Pi"], p.pibar), RAdd(RAdd(x["r"], p.pibar), RSub(RDiv(One, p.bet), One)) >>
PfStd(c, p) == << p.s_z, p.s_u, PfDerived(c, p)["sr2"] >>
PfAccept(c, p) == IF RGt(PfDerived(c, p)["x_bar"], "-1e-9") THEN "fail" ELSE Solve(TLCEval(Mats(PfModel(c, p)))).kind

PfDig(st, ev) ==
    LET dg == ev.dig
        p == st.par
        v == TLCEval(PfDerived(st.c, p))
    IN  IF ~dg.ok THEN {<<"C17", "model unusable", dg.exc, dg.msg>>}
        ELSE (IF SamePar(ToPar(dg.par), p) THEN {} ELSE {<<"C17", "parameters">>})
             \cup {<<"C17", "value", n, dg.der[n], v[n]>> : n \in {n \in Names(st.c.defs) : ~RClose(dg.der[n], v[n], "1e-8")}}
             \cup {<<"C17", "value in the dictionary", n, dg.dict[n], v[n]>> : n \in {n \in Names(st.c.defs) : ~RLeq(RAbs(RSub(dg.dict[n], v[n])), "6e-6")}}
             \cup (IF st.cur.tab = <<>> THEN {} ELSE StepsBad("C17", st.cur, dg))
             \cup (IF VClose(dg.obs, PfObs(st.c, p, dg.s1.x), Tol) THEN {} ELSE {<<"C17", "observables">>})
             \cup (IF MClose(dg.cov, Diag(PfStd(st.c, p)), Tol) THEN {} ELSE {<<"C17", "shock standard deviations", dg.cov>>})
PStartF(trace) == [c |-> <<>>, par |-> Calib, cur |-> <<>>, ready |-> FALSE]
PfJudge(st, ev, trace) ==
    CASE ev.op = "read" ->
            LET c == [defs |-> ev.defs, fv |-> ev.fv]
                okd == Defined(c.defs, c.fv)
                a == IF okd THEN PfAccept(c, Calib) ELSE "none"
                nxt == [c |-> c, par |-> Calib, cur |-> TLCEval(PfFresh(c, Calib, 3, 17)), ready |-> TRUE]
            IN  IF ~okd THEN [st |-> [st EXCEPT !.ready = FALSE], bad |-> IF ev.ok THEN {<<"C17", "circular or undefined definitions accepted">>, <<"C18", "circular or undefined definitions accepted">>} ELSE {}]
                ELSE IF a # "unique" THEN [st |-> [st EXCEPT !.ready = FALSE], bad |-> {}]
                ELSE IF ~ev.ok THEN [st |-> [st EXCEPT !.ready = FALSE], bad |-> {<<"C17", "not readable", ev.exc, ev.msg>>}]
                ELSE [st |-> nxt, bad |-> PfDig(nxt, ev)]
      [] ~st.ready -> [st |-> st, bad |-> {}]
      [] ev.op = "set" ->
            LET p == IF Has(ev, "vec") THEN AsPar(st.par, ev.vec) ELSE [st.par EXCEPT ![ev.name] = ev.value]
                a == PfAccept(st.c, p)
                nxt == [st EXCEPT !.par = p, !.cur = TLCEval(PfFresh(st.c, p, 3, 17))]
                to == IF ev.ok THEN nxt ELSE st
            IN  IF ~ev.ok /\ a = "unique" THEN [st |-> st, bad |-> {<<"C17", "setting rejected", ev.exc, ev.msg>>}]
                ELSE IF ev.ok /\ a # "unique" THEN [st |-> [st EXCEPT !.ready = FALSE], bad |-> {}]
                ELSE [st |-> to, bad |-> PfDig(to, ev)]
      [] ev.op = "npar" ->
            LET v == TLCEval(PfDerived(st.c, AsPar(st.par, ev.vec))) IN
            [st |-> st,
             bad |-> (IF ~ev.ok THEN {<<"C17", "read at other parameters failed", ev.exc, ev.msg>>}
                      ELSE {<<"C17", "value at other parameters", n, ev.der[n], v[n]>> : n \in {n \in Names(st.c.defs) : ~RClose(ev.der[n], v[n], "1e-8")}})
                     \cup PfDig(st, ev)]
===============================================================================
