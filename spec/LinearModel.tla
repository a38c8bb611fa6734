----------------------------- MODULE LinearModel -----------------------------
(***************************************************************************)
(* A model as the user writes it, and its meaning.                         *)
(*                                                                         *)
(* A model is a record                                                     *)
(*   vars   : sequence of variable names                                   *)
(*   shocks : sequence of shock names                                      *)
(*   eqs    : sequence of equations; an equation is a sequence of terms    *)
(*            <<coefficient, symbol, date>> whose sum is zero; the symbol  *)
(*            is a variable or a shock, the date is 0, -1, +3, ...         *)
(*   con    : [var |-> constrained variable, terms |-> its rule]           *)
(*            i.e.  var = max(rule, xbar)                                  *)
(*   xbar   : the bound                                                    *)
(*                                                                         *)
(* Residual is the declarative meaning of an equation.  Mats brings the    *)
(* model into first-order form by giving every far lead or lag a slot of   *)
(* its own; Solve computes the stable linear solution by cyclic reduction, *)
(* which also tells whether it is the only one.                            *)
(***************************************************************************)
EXTENDS Reals, Integers, Sequences, FiniteSets, SequencesExt, TLC

VarSet(m)   == Range(m.vars)
ShockSet(m) == Range(m.shocks)
AllTerms(m) == FlattenSeq(m.eqs) \o m.con.terms

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* largest lead (d = 1) / lag (d = -1) with which symbol s appears, at least 0
Reach(m, s, d) == MaxOf({0} \cup {d * t[3] : t \in {u \in Range(AllTerms(m)) : u[2] = s}})

-----------------------------------------------------------------------------
(* Residual of an equation in a period.  X(d) and E(d) are the records of  *)
(* variables and shocks d periods away (d may be negative).                *)
Residual(m, eq, X(_), E(_)) ==
    VSum([i \in 1..Len(eq) |-> LET t == eq[i] IN
            RMul(t[1], IF t[2] \in VarSet(m) THEN X(t[3])[t[2]] ELSE E(t[3])[t[2]])])
\* size of the terms, to judge a residual against
Scale(m, eq, X(_), E(_)) ==
    VMaxAbs([i \in 1..Len(eq) |-> LET t == eq[i] IN
            RMul(t[1], IF t[2] \in VarSet(m) THEN X(t[3])[t[2]] ELSE E(t[3])[t[2]])])

EqLead(eq) == MaxOf({0} \cup {t[3] : t \in Range(eq)})
EqLag(eq)  == MaxOf({0} \cup {-t[3] : t \in Range(eq)})

-----------------------------------------------------------------------------
(* First-order form. *)
Slots(m) ==
    [i \in 1..Len(m.vars) |-> <<m.vars[i], 0>>]
    \o FlattenSeq([i \in 1..Len(m.vars) |-> LET v == m.vars[i] IN
           [j \in 1..(IF Reach(m, v, -1) > 1 THEN Reach(m, v, -1) - 1 ELSE 0) |-> <<v, -j>>]
           \o [j \in 1..(IF Reach(m, v, 1) > 1 THEN Reach(m, v, 1) - 1 ELSE 0) |-> <<v, j>>]])
    \o FlattenSeq([i \in 1..Len(m.shocks) |-> LET s == m.shocks[i] IN
           [j \in 1..Reach(m, s, -1) |-> <<s, 1 - j>>]])

IndexOf(seq) == [s \in Range(seq) |-> CHOOSE i \in 1..Len(seq) : seq[i] = s]

\* the matrix ("A" lead, "B" current, "C" lag, "D" shock) and column of a term
Place(m, ix, six, t) ==
    IF t[2] \in VarSet(m)
    THEN IF t[3] = 0 THEN <<"B", ix[<<t[2], 0>>]>>
         ELSE IF t[3] > 0 THEN <<"A", ix[<<t[2], t[3] - 1>>]>>
         ELSE <<"C", ix[<<t[2], t[3] + 1>>]>>
    ELSE IF t[3] = 0 THEN <<"D", six[t[2]]>>
         ELSE <<"C", ix[<<t[2], t[3] + 1>>]>>

RowOf(m, ix, six, terms, mat, n) ==
    LET pl == [i \in 1..Len(terms) |-> Place(m, ix, six, terms[i])]
    IN  [j \in 1..n |-> VSum([i \in 1..Len(terms) |-> IF pl[i] = <<mat, j>> THEN terms[i][1] ELSE "0.0"])]

\* terms that define a slot which is not a variable itself (sum to zero)
SlotRow(m, ix, n, s) ==
    LET unit(j) == VUnit(n, j)
        me == unit(ix[s])
        zero == VZero(n)
        ne == Len(m.shocks)
        six == IndexOf(m.shocks)
    IN  IF s[1] \in ShockSet(m) /\ s[2] = 0
        THEN [A |-> zero, B |-> me, C |-> zero, D |-> VNeg(VUnit(ne, six[s[1]]))]
        ELSE IF s[2] < 0
        THEN [A |-> zero, B |-> me, C |-> VNeg(unit(ix[<<s[1], s[2] + 1>>])), D |-> VZero(ne)]
        ELSE [A |-> VNeg(unit(ix[<<s[1], s[2] - 1>>])), B |-> me, C |-> zero, D |-> VZero(ne)]

\* A x(+1) + B x + C x(-1) + D e = 0, the last row being the constraint:
\* r = fb x + fc x(-1) + fd e when it is slack
Mats(m) ==
    LET slots == TLCEval(Slots(m))
        n  == Len(slots)
        ix == TLCEval(IndexOf(slots))
        six == TLCEval(IndexOf(m.shocks))
        nv == Len(m.vars)
        ne == Len(m.shocks)
        rows == [i \in 1..Len(m.eqs) |->
                    [A |-> RowOf(m, ix, six, m.eqs[i], "A", n), B |-> RowOf(m, ix, six, m.eqs[i], "B", n),
                     C |-> RowOf(m, ix, six, m.eqs[i], "C", n), D |-> RowOf(m, ix, six, m.eqs[i], "D", ne)]]
                \o [i \in 1..(n - nv) |-> SlotRow(m, ix, n, slots[nv + i])]
        fb == RowOf(m, ix, six, m.con.terms, "B", n)
        fc == RowOf(m, ix, six, m.con.terms, "C", n)
        fd == RowOf(m, ix, six, m.con.terms, "D", ne)
        r  == VUnit(n, ix[<<m.con.var, 0>>])
        all == TLCEval(rows)
    IN  [n |-> n, ne |-> ne, slots |-> slots, rix |-> ix[<<m.con.var, 0>>],
         A  |-> [i \in 1..Len(all) |-> all[i].A] \o <<VZero(n)>>,
         B  |-> [i \in 1..Len(all) |-> all[i].B] \o <<VSub(r, fb)>>,
         C  |-> [i \in 1..Len(all) |-> all[i].C] \o <<VNeg(fc)>>,
         D  |-> [i \in 1..Len(all) |-> all[i].D] \o <<VNeg(fd)>>,
         \* the same with the constraint binding (last row r = xbar)
         Bc |-> [i \in 1..Len(all) |-> all[i].B] \o <<r>>,
         Cc |-> [i \in 1..Len(all) |-> all[i].C] \o <<VZero(n)>>,
         Dc |-> [i \in 1..Len(all) |-> all[i].D] \o <<VZero(ne)>>,
         fb |-> fb, fc |-> fc, fd |-> fd]

-----------------------------------------------------------------------------
(* Stable linear solution. *)
RECURSIVE Cyclic(_, _, _, _, _)
\* C + B X + A X^2 = 0 ; H converges to B + A X
Cyclic(C, B, A, H, it) ==
    IF it = 0 \/ RLt(RMin(MMaxAbs(C), MMaxAbs(A)), "1e-15") \/ ~RIsNum(MMaxAbs(B)) THEN H
    ELSE LET SC == TLCEval(MSolve(B, C))
             SA == TLCEval(MSolve(B, A))
             ASC == TLCEval(MMul(A, SC))
         IN  Cyclic(TLCEval(MNeg(MMul(C, SC))), TLCEval(MSub(MSub(B, MMul(C, SA)), ASC)),
                    TLCEval(MNeg(MMul(A, SA))), TLCEval(MSub(H, ASC)), it - 1)

\* spectral radius: |M^(2^j)|^(1/2^j)
RECURSIVE RadiusLoop(_, _, _)
RadiusLoop(M, logs, j) ==          \* M^(2^j) = exp(logs) M
    LET nrm == MMaxAbs(M) IN
    IF ~RIsNum(nrm) THEN "nan"
    ELSE IF RLt(nrm, "1e-280") THEN "0.0"
    ELSE IF j = 14 THEN RExp(RDiv(RAdd(logs, RLog(nrm)), "16384.0"))
    ELSE LET U == MScale(RDiv("1.0", nrm), M) IN
         RadiusLoop(TLCEval(MMul(U, U)), RMul("2.0", RAdd(logs, RLog(nrm))), j + 1)
Radius(M) == RadiusLoop(M, "0.0", 0)

\* x = P x(-1) + Q e;  kind: "unique", "many" (indeterminate), "none" (explosive),
\* or "unclear" (a root so close to one that rounding decides, or no convergence)
Solve(M) ==
    LET H  == TLCEval(Cyclic(M.C, M.B, M.A, M.B, 40))
        P0 == TLCEval(MNeg(MSolve(H, M.C)))
        P1 == TLCEval(MNeg(MSolve(MAdd(MMul(M.A, P0), M.B), M.C)))
        G  == TLCEval(MAdd(MMul(M.A, P1), M.B))
        P  == TLCEval(MNeg(MSolve(G, M.C)))
        Q  == TLCEval(MNeg(MSolve(G, M.D)))
        F  == TLCEval(MNeg(MSolve(G, M.A)))
        res == MMaxAbs(MAdd(MAdd(MMul(M.A, MMul(P, P)), MMul(M.B, P)), M.C))
        rp == Radius(P)
        rf == Radius(F)
        ok == RIsNum(res) /\ RLt(res, "1e-8") /\ RIsNum(rp) /\ RIsNum(rf)
    IN  [P |-> P, Q |-> Q, g |-> VZero(M.n), rp |-> rp, rf |-> rf,
         kind |-> IF ~ok THEN "unclear"
                  ELSE IF RLt(rp, "0.9995") /\ RLt(rf, "0.9999") THEN "unique"
                  ELSE IF RGt(rp, "1.0005") /\ RLt(rf, "0.9995") THEN "none"
                  ELSE IF RGt(rf, "1.0005") /\ RLt(rp, "0.9995") THEN "many"
                  ELSE "unclear"]

-----------------------------------------------------------------------------
(* The slot vector of the previous period, from the history of the         *)
(* declared variables and shocks: X(d), E(d) are the records d periods ago *)
(* (d = 1 is the previous period).                                         *)
LagVector(m, M, X(_), E(_)) ==
    [i \in 1..M.n |-> LET s == M.slots[i] IN
        IF s[2] > 0 THEN "0.0"              \* leads: never used as a lag
        ELSE IF s[1] \in VarSet(m) THEN X(1 - s[2])[s[1]]
        ELSE E(1 - s[2])[s[1]]]
\* the declared variables out of a slot vector
VarsOf(m, x) == [v \in VarSet(m) |-> x[CHOOSE i \in 1..Len(m.vars) : m.vars[i] = v]]
ShockVec(m, e) == [i \in 1..Len(m.shocks) |-> e[m.shocks[i]]]
ZeroVars(m)   == [v \in VarSet(m) |-> "0.0"]
ZeroShocks(m) == [s \in ShockSet(m) |-> "0.0"]
=============================================================================
