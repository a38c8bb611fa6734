--------------------------------- MODULE OBC ---------------------------------
(***************************************************************************)
(* The model with an occasionally binding constraint.                      *)
(*                                                                         *)
(* A regime is a pair <<l, k>>: the constraint is expected to be slack for *)
(* l periods, then to bind for k periods, then never again.  Its solution  *)
(* follows backwards from the unconstrained one; each regime is succeeded  *)
(* by Succ(l, k).  Find is the selection of the regime in a period.        *)
(***************************************************************************)
EXTENDS LinearModel

Succ(l, k) == IF l > 0 THEN <<l - 1, k>> ELSE IF k > 0 THEN <<0, k - 1>> ELSE <<0, 0>>
\* the regime expected to rule s periods ahead
Ahead(l, k, s) == IF s <= l THEN <<l - s, k>> ELSE IF s <= l + k THEN <<0, k + l - s>> ELSE <<0, 0>>
Binds(l, k) == l = 0 /\ k > 0

\* the law of motion today, given tomorrow's law nxt
StepBack(M, xbar, nxt, binding) ==
    LET B == IF binding THEN M.Bc ELSE M.B
        C == IF binding THEN M.Cc ELSE M.C
        D == IF binding THEN M.Dc ELSE M.D
        h == [i \in 1..M.n |-> IF binding /\ i = M.n THEN xbar ELSE "0.0"]
        rhs == VSub(h, MVec(M.A, nxt.g))
        G == MAdd(MMul(M.A, nxt.P), B)
        Z == TLCEval(MSolve(G, [i \in 1..M.n |-> VNeg(C[i]) \o VNeg(D[i]) \o <<rhs[i]>>]))
    IN  [P |-> [i \in 1..M.n |-> SubSeq(Z[i], 1, M.n)],
         Q |-> [i \in 1..M.n |-> SubSeq(Z[i], M.n + 1, M.n + M.ne)],
         g |-> [i \in 1..M.n |-> Z[i][M.n + M.ne + 1]]]

RECURSIVE RowK(_, _, _, _)       \* laws of <<0,0>>, <<0,1>>, ..., <<0,k>>
RowK(M, xbar, base, k) ==
    IF k = 0 THEN <<base>>
    ELSE LET prev == RowK(M, xbar, base, k - 1)
         IN  Append(prev, TLCEval(StepBack(M, xbar, prev[k], TRUE)))
RECURSIVE TableL(_, _, _, _, _)
TableL(M, xbar, base, l, k) ==
    IF l = 0 THEN <<RowK(M, xbar, base, k)>>
    ELSE LET prev == TableL(M, xbar, base, l - 1, k)
         IN  Append(prev, <<base>> \o [j \in 1..k |-> TLCEval(StepBack(M, xbar, prev[l][j + 1], FALSE))])
\* laws of all regimes up to <<L, K>>; Law(tab, l, k) is one of them
Table(M, xbar, base, L, K) == TLCEval(TableL(M, xbar, base, L, K))
\* a nearly singular regime amplifies rounding beyond any tolerance
WellConditioned(tab) ==
    \A i \in 1..Len(tab) : \A j \in 1..Len(tab[i]) : RLt(RMax(MMaxAbs(tab[i][j].P), RMax(MMaxAbs(tab[i][j].Q), VMaxAbs(tab[i][j].g))), "1e5")
Law(tab, l, k) == tab[l + 1][k + 1]

Move(law, lag, e) == VAdd(VAdd(MVec(law.P, lag), MVec(law.Q, e)), law.g)
\* the value the rule asks for
Rule(M, x, lag, e) == RAdd(RAdd(VDot(M.fb, x), VDot(M.fc, lag)), VDot(M.fd, e))

\* rule values expected for periods 0..S under regime <<l, k>>
RECURSIVE RulePath(_, _, _, _, _, _, _)
RulePath(M, tab, l, k, lag, e, S) ==
    LET x == TLCEval(Move(Law(tab, l, k), lag, e))
        r == Rule(M, x, lag, e)
        nx == Succ(l, k)
    IN  IF S = 0 THEN <<r>>
        ELSE <<r>> \o RulePath(M, tab, nx[1], nx[2], x, VZero(M.ne), S - 1)

(* The same as coefficients on (lag, e, 1), for all regimes at once:        *)
(* rt[l+1][k+1] has the matrices a, b and the vector c whose row s+1 gives  *)
(* the rule value s periods ahead (OBCDesign checks that both agree).       *)
RuleRows(M, law, nxt) ==       \* today's law, and the rows from tomorrow on
    LET row(v) == [a |-> <<VAdd(MVec(MT(law.P), v), M.fc)>>, b |-> <<VAdd(MVec(MT(law.Q), v), M.fd)>>, c |-> <<VDot(v, law.g)>>]
        now == row(M.fb)
    IN  IF nxt.a = <<>> THEN now
        ELSE [a |-> now.a \o MMul(nxt.a, law.P), b |-> now.b \o MMul(nxt.a, law.Q), c |-> now.c \o VAdd(MVec(nxt.a, law.g), nxt.c)]
NoRows == [a |-> <<>>, b |-> <<>>, c |-> <<>>]
RECURSIVE SlackRows(_, _, _)
SlackRows(M, law, s) == IF s = 0 THEN TLCEval(RuleRows(M, law, NoRows)) ELSE TLCEval(RuleRows(M, law, SlackRows(M, law, s - 1)))
RECURSIVE RowsK(_, _, _, _)
RowsK(M, tab, base, k) ==
    IF k = 0 THEN <<base>>
    ELSE LET prev == RowsK(M, tab, base, k - 1)
             one == IF k = 1 THEN SlackRows(M, Law(tab, 0, 0), 0) ELSE prev[k]
         IN  Append(prev, TLCEval(RuleRows(M, Law(tab, 0, k), one)))
RECURSIVE RowsL(_, _, _, _, _)
RowsL(M, tab, base, l, K) ==
    IF l = 0 THEN <<RowsK(M, tab, base, K)>>
    ELSE LET prev == RowsL(M, tab, base, l - 1, K)
         IN  Append(prev, <<base>> \o [j \in 1..K |-> TLCEval(RuleRows(M, Law(tab, l, j), prev[l][j + 1]))])
RuleTable(M, tab, L, K) == TLCEval(RowsL(M, tab, SlackRows(M, Law(tab, 0, 0), L), L, K))
RuleAt(rt, l, k, lag, e, s) ==
    LET r == rt[l + 1][k + 1] IN RAdd(RAdd(VDot(r.a[s + 1], lag), VDot(r.b[s + 1], e)), r.c[s + 1])

(* Selection.  sg = "0.0" is the definition; sg = +1/-1 shifts every        *)
(* comparison by the numerical tolerance, to recognise ties; "strict" and   *)
(* "lenient" decide every tie against or in favour of consistency.          *)
SgOk(sg) == CASE sg = "strict" -> "-1.0" [] sg = "lenient" -> "1.0" [] OTHER -> sg
SgAt(sg) == CASE sg = "strict" -> "1.0" [] sg = "lenient" -> "-1.0" [] OTHER -> sg
Above(v, xbar, sg) == RGt(RAdd(RSub(v, xbar), RMul(sg, RMul("1e-7", RAdd("1.0", RAbs(v))))), "0.0")
Below(v, xbar, sg) == RLt(RAdd(RSub(v, xbar), RMul(sg, RMul("1e-7", RAdd("1.0", RAbs(v))))), "0.0")

Slack(rt, L, lag, e, xbar, sg) ==      \* never binding over the horizon
    \A s \in 0..L : Above(RuleAt(rt, 0, 0, lag, e, s), xbar, SgOk(sg))

Consistent(rt, l, k, lag, e, xbar, sg) ==
    LET ok(s) == ~Below(RuleAt(rt, l, k, lag, e, s), xbar, SgOk(sg))     \* not below the bound in period s
        at(s) == ~Above(RuleAt(rt, l, k, lag, e, s), xbar, SgAt(sg))     \* the rule asks for no more than the bound
    IN  /\ l >= 1 => ok(0)
        /\ l > 1  => ok(l - 1)
        /\ ok(l + k)
        /\ at(l)
        /\ k > 1  => at(l + k - 1)

RECURSIVE FirstFrom(_, _, _, _, _, _, _, _, _)
FirstFrom(rt, L, K, lag, e, xbar, sg, l, k) ==
    IF l > L THEN <<-1, -1>>
    ELSE IF k > K THEN FirstFrom(rt, L, K, lag, e, xbar, sg, l + 1, 1)
    ELSE IF Consistent(rt, l, k, lag, e, xbar, sg) THEN <<l, k>>
    ELSE FirstFrom(rt, L, K, lag, e, xbar, sg, l, k + 1)

\* no equilibrium: lengthen the spell until the rule falls below, then rises above the bound
RECURSIVE Approx(_, _, _, _, _, _, _, _)
Approx(rt, K, lag, e, xbar, sg, k, fell) ==
    LET v  == RuleAt(rt, 0, k, lag, e, k)
    IN  IF fell /\ Above(v, xbar, SgOk(sg)) THEN <<0, k, 1>>
        ELSE IF k = K THEN <<0, k, 2>>
        ELSE Approx(rt, K, lag, e, xbar, sg, k + 1, fell \/ Below(v, xbar, SgOk(sg)))

\* <<l, k, flag>>
FindSg(rt, L, K, lag, e, xbar, sg) ==
    IF Slack(rt, L, lag, e, xbar, sg) THEN <<0, 0, 0>>
    ELSE LET f == FirstFrom(rt, L, K, lag, e, xbar, sg, 0, 1) IN
         IF f[1] >= 0 THEN <<f[1], f[2], 0>>
         ELSE IF K = 0 THEN <<0, 0, 2>>
         ELSE Approx(rt, K, lag, e, xbar, sg, 1, FALSE)
Find(rt, L, K, lag, e, xbar) == FindSg(rt, L, K, lag, e, xbar, "0.0")
\* the set of selections that rounding may produce: one element unless there is a tie
FindSet(rt, L, K, lag, e, xbar) ==
    LET two == TLCEval({FindSg(rt, L, K, lag, e, xbar, sg) : sg \in {"1.0", "-1.0"}}) IN
    IF Cardinality(two) = 1 THEN two
    ELSE two \cup {FindSg(rt, L, K, lag, e, xbar, sg) : sg \in {"0.0", "strict", "lenient"}}

\* search horizon for the requested (l_max, k_max); -1 stands for "not given"
Horizon(lmax, kmax) ==
    <<IF lmax < 0 THEN 3 ELSE (IF lmax < 2 /\ kmax > 0 THEN 2 ELSE lmax) + 1,
      IF kmax < 0 THEN 17 ELSE kmax>>
=============================================================================
