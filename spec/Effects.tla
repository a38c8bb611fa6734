------------------------------- MODULE Effects -------------------------------
(***************************************************************************)
(* Paths of a solved model (Sim) and what the single shocks contribute to  *)
(* them.  A state s is a solved model with its history.                    *)
(***************************************************************************)
EXTENDS Sim

\* a model without lagged auxiliary variables, at the state x0
At(cur, x0) == [cur EXCEPT !.hist = <<x0>>, !.eh = <<>>]
Rested(st) == [st EXCEPT !.hist = <<>>, !.eh = <<>>]

RECURSIVE RefPath(_, _, _)       \* <<[x, l, k, tie], ...>>: one selection of the durations per period
RefPath(s, epss, lin) ==
    IF epss = <<>> THEN <<>>
    ELSE LET e == epss[1]
             a == TLCEval(Allowed(s, e, lin, <<>>))
             d == CHOOSE d \in a : TRUE
             x == TLCEval(VarsOf(s.m, Move(Law(s.tab, d[1], d[2]), Lag(s), ShockVec(s.m, e))))
         IN  <<[x |-> x, l |-> d[1], k |-> d[2], tie |-> Cardinality(a) > 1]>> \o TLCEval(RefPath(Advance(s, x, e), Tail(epss), lin))
\* the states along a path, each with its history
RECURSIVE StatesOn(_, _, _)
StatesOn(s, path, epss) ==
    <<s>> \o (IF path = <<>> THEN <<>> ELSE TLCEval(StatesOn(Advance(s, path[1].x, epss[1]), Tail(path), Tail(epss))))

UnitE(e, s) == [q \in DOMAIN e |-> IF q = s THEN e[q] ELSE "0.0"]
RAddRec(a, b) == [v \in DOMAIN a |-> RAdd(a[v], b[v])]
RScaleRec(k, a) == [v \in DOMAIN a |-> RMul(k, a[v])]
RECURSIVE SumRecs(_)
SumRecs(q) == IF Len(q) = 1 THEN q[1] ELSE RAddRec(q[1], TLCEval(SumRecs(Tail(q))))
MeanRecs(q) == RScaleRec(RDiv("1.0", RNum(Len(q))), SumRecs(q))

(* Contributions: the state is the sum of one component per shock.  Each    *)
(* component moves with the law of the regime that the whole path is in,   *)
(* and carries the constant of that law in proportion to what it           *)
(* contributes to the rule; at the start all have an equal share.          *)
LinMove(c, l, k, e) ==       \* without the constant
    LET law == Law(c.tab, l, k) IN VarsOf(c.m, VAdd(MVec(law.P, Lag(c)), MVec(law.Q, ShockVec(c.m, e))))
RuleCoef(c, l, k, e) ==
    LET r == c.rt[l + 1][k + 1] IN RAdd(VDot(r.a[1], Lag(c)), VDot(r.b[1], ShockVec(c.m, e)))
Component(s) ==
    LET w == RDiv("1.0", RNum(Len(s.m.shocks)))
    IN  [s EXCEPT !.hist = [i \in DOMAIN s.hist |-> RScaleRec(w, s.hist[i])], !.eh = [i \in DOMAIN s.eh |-> RScaleRec(w, s.eh[i])]]
RECURSIVE Components(_, _, _)
Components(comp, path, epss) ==       \* comp: shock -> state
    <<[s \in DOMAIN comp |-> Past(comp[s], 1)]>>
    \o (IF path = <<>> THEN <<>>
        ELSE LET l == path[1].l  k == path[1].k
                 rc == TLCEval([s \in DOMAIN comp |-> RuleCoef(comp[s], l, k, UnitE(epss[1], s))])
                 sh == comp[CHOOSE s \in DOMAIN comp : TRUE]
                 tot == VSum([i \in 1..Len(sh.m.shocks) |-> rc[sh.m.shocks[i]]])
                 g == TLCEval(VarsOf(sh.m, Law(sh.tab, l, k).g))
                 nxt == TLCEval([s \in DOMAIN comp |->
                          LET b == LinMove(comp[s], l, k, UnitE(epss[1], s))
                              x == IF k > 0 /\ ~REq(tot, "0.0") THEN RAddRec(b, RScaleRec(RDiv(rc[s], tot), g)) ELSE b
                          IN  Advance(comp[s], x, UnitE(epss[1], s))])
             IN  TLCEval(Components(nxt, Tail(path), Tail(epss))))
Contrib(s, path, epss) == Components([q \in ShockSet(s.m) |-> Component(s)], path, epss)

\* response at a horizon: [x, tie]
RECURSIVE LastOf(_, _, _, _)
LastOf(s, e, lin, h) ==
    LET a == TLCEval(Allowed(s, e, lin, <<>>))
        d == CHOOSE d \in a : TRUE
        x == TLCEval(VarsOf(s.m, Move(Law(s.tab, d[1], d[2]), Lag(s), ShockVec(s.m, e))))
        r == IF h = 1 THEN [x |-> x, tie |-> FALSE] ELSE LastOf(Advance(s, x, e), ZeroShocks(s.m), lin, h - 1)
    IN  [x |-> r.x, tie |-> r.tie \/ Cardinality(a) > 1]
===============================================================================
