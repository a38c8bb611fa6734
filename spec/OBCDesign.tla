------------------------------- MODULE OBCDesign -------------------------------
(***************************************************************************)
(* The simulation of the specification itself: from every parameter point  *)
(* and the steady state, all sequences of shocks from a grid.  The clauses *)
(* that judge the real code (C01, C02, C03) are invariants here: what the  *)
(* specification prescribes satisfies what the properties ask for.         *)
(***************************************************************************)
EXTENDS Session
CONSTANTS Depth
VARIABLES i, st, last
vars == <<i, st, last>>
DL == 2
DK == 6
Points == << Calib, [Calib EXCEPT !.rho = "0.0", !.h = "0.1", !.elb = "0.5"], [Calib EXCEPT !.rho_r = "-0.5", !.elb = "0.3"],
             [Calib EXCEPT !.sg = "1.2", !.th = "0.6", !.phi_pi = "2.1"] >>
Grid == {[e_u |-> a, e_z |-> b, e_r |-> c] : a \in {"-0.6", "0.0", "0.7", "1.5"}, b \in {"0.0", "0.9"}, c \in {"-0.7", "0.0"}}
Init == /\ i \in 1..Len(Points) /\ last = <<>>
        /\ st = TLCEval(FreshLK(Points[i], DL, DK))
\* the expected path under regime <<l, k>>, s periods from state c
RECURSIVE Path(_, _, _, _, _)
Path(c, e, l, k, s) ==
    LET x == TLCEval(VarsOf(c.m, Move(Law(c.tab, l, k), Lag(c), ShockVec(c.m, e))))
        nx == Succ(l, k)
    IN  <<x>> \o (IF s = 0 THEN <<>> ELSE Path(Advance(c, x, e), ZeroShocks(c.m), nx[1], nx[2], s - 1))
Next == /\ Len(st.hist) < Depth
        /\ \E e \in Grid :
             LET f == TLCEval(Find(st.rt, st.L, st.K, Lag(st), ShockVec(st.m, e), st.m.xbar))
                 p == TLCEval(Path(st, e, f[1], f[2], 4))
             IN  /\ last' = [pre |-> [h |-> st.hist, eh |-> st.eh], e |-> e, f |-> f, p |-> p]
                 /\ st' = TLCEval(Advance(st, p[1], e))
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Old == [st EXCEPT !.hist = last.pre.h, !.eh = last.pre.eh]
\* the state before the last period; the clauses on what was found
Equations == last = <<>> \/ PathBad(Old, last.p, last.e) = {}
BoundPath == last = <<>> \/ ConBad(Old, last.p, last.e, last.f[1], last.f[2]) = {}
Complement == last = <<>> \/ last.f[3] # 0 \/ ComplBad(Old, last.p[1], last.e) = {}
NeverBelow == last = <<>> \/ last.f[3] # 0 \/ RLeq(RSub(st.m.xbar, "1e-8"), last.p[1][st.m.con.var])
FirstOne == last = <<>> \/ last.f[3] # 0 \/ last.f[2] = 0
            \/ \A l \in 0..last.f[1] : \A k \in 1..st.K :
                  (l < last.f[1] \/ k < last.f[2]) => ~Consistent(st.rt, l, k, Lag(Old), ShockVec(st.m, last.e), st.m.xbar, "0.0")
\* rule values as coefficients and along the path agree
Rows == last = <<>> \/ LET l == last.f[1]
                           k == last.f[2]
                           v == RulePath(st.M, st.tab, l, k, Lag(Old), ShockVec(st.m, last.e), l + k)
                       IN  \A s \in 0..(l + k) : RClose(v[s + 1], RuleAt(st.rt, l, k, Lag(Old), ShockVec(st.m, last.e), s), "1e-7")
Accepted == st.sol.kind = "unique" /\ st.wc
View == <<i, st.hist, st.eh>>
===============================================================================
