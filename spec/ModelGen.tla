------------------------------- MODULE ModelGen -------------------------------
(***************************************************************************)
(* The space of model files that is explored: a New Keynesian core with    *)
(* features of the model language switched on one by one.                  *)
(***************************************************************************)
EXTENDS Reals, Integers, Sequences, FiniteSets, TLC

Features ==
  [ hyb  : 0..2,            \* y(-1), y(-2) in the demand equation
    pib  : 0..1,            \* Pi(-1) in the supply equation
    shl  : 0..5,            \* lag of the demand shock; 4, 5: mostly news
    wld  : 0..4,            \* lead in the equation of w ...
    wldv : {"u", "y", "Pi", "r"},
    wlg  : 0..4,            \* ... and lag
    wlgv : {"u", "y", "Pi", "r"},
    fbk  : 0..1,            \* w feeds back into demand
    own  : 0..1,            \* constraint: own lag,
    cy   : 0..1,            \*   lag of y,
    cpi  : 0..1,            \*   lag of Pi,
    cu   : 0..1,            \*   current u and its lag,
    ce   : 0..1,            \*   shock
    two  : 0..2,            \* second shock process: none, AR(1), AR(2)
    cst  : 0..1,            \* static variable, dead end
    cv   : 0..2,            \* calibration variant
    xb   : 0..4,            \* bound: value, and how it is given
    sty  : 0..6,            \* notation
    ord  : 0..3 ]           \* order of declarations and equations

Base == [hyb |-> 0, pib |-> 0, shl |-> 0, wld |-> 0, wldv |-> "u", wlg |-> 0, wlgv |-> "u", fbk |-> 0,
         own |-> 0, cy |-> 0, cpi |-> 0, cu |-> 0, ce |-> 0, two |-> 1, cst |-> 0, cv |-> 0, xb |-> 0,
         sty |-> 0, ord |-> 0]

Choices(k) ==
    CASE k \in {"hyb", "two", "cv"} -> 0..2
      [] k \in {"pib", "fbk", "own", "cy", "cpi", "cu", "ce", "cst"} -> 0..1
      [] k = "shl" -> 0..5
      [] k = "ord" -> 0..3
      [] k = "xb" -> 0..4
      [] k \in {"wld", "wlg"} -> 0..4
      [] k \in {"wldv", "wlgv"} -> {"u", "y", "Pi", "r"}
      [] k = "sty" -> 0..6
Keys == <<"hyb", "pib", "shl", "wld", "wldv", "wlg", "wlgv", "fbk", "own", "cy", "cpi", "cu", "ce", "two", "cst", "cv", "xb", "sty", "ord">>

\* every feature value alone, and the two-dimensional families (lead or lag order x variable)
SingleSet ==
    UNION {{[Base EXCEPT ![Keys[i]] = v] : v \in Choices(Keys[i])} : i \in 1..Len(Keys)}
    \cup {[Base EXCEPT !.wld = n, !.wldv = v] : n \in 1..4, v \in {"u", "y", "Pi", "r"}}
    \cup {[Base EXCEPT !.wlg = n, !.wlgv = v] : n \in 1..4, v \in {"u", "y", "Pi", "r"}}
    \cup {[Base EXCEPT !.hyb = h, !.cy = 1] : h \in 0..2}
    \cup {[Base EXCEPT !.pib = h, !.cpi = 1] : h \in 0..1}
    \cup {[Base EXCEPT !.hyb = 1, !.pib = 1, !.own = 1]}
    \cup {[Base EXCEPT !.shl = n, !.cv = r, !.own = o, !.pib = o] : n \in 4..5, r \in 0..2, o \in 0..1}

-----------------------------------------------------------------------------
Cal(f) == CASE f.cv = 0 -> [bet |-> "0.99", kap |-> "0.15", sig |-> "0.9",  rho |-> "0.75", phi |-> "1.6", phy |-> "0.1",  rr |-> "0.7",  a |-> "0.55"]
            [] f.cv = 1 -> [bet |-> "0.97", kap |-> "0.05", sig |-> "0.5",  rho |-> "0.9",  phi |-> "2.0", phy |-> "0.25", rr |-> "0.5",  a |-> "0.65"]
            [] f.cv = 2 -> [bet |-> "0.995", kap |-> "0.3", sig |-> "1.2",  rho |-> "0.6",  phi |-> "1.3", phy |-> "0.05", rr |-> "0.85", a |-> "0.6"]

Opt(c, s) == IF c THEN s ELSE <<>>
N(x) == RNeg(x)

HasW(f) == f.wld > 0 \/ f.wlg > 0 \/ f.fbk = 1

\* the model denoted by a feature record (see LinearModel for the format)
MakeModel(f) ==
    LET c  == Cal(f)
        a1 == IF f.hyb = 0 THEN "1.0" ELSE c.a
        b1 == RSub("1.0", a1)
        demand == <<<<"1.0", "y", 0>>, <<N(a1), "y", 1>>, <<c.sig, "r", 0>>, <<N(c.sig), "Pi", 1>>, <<"1.0", "u", 0>>>>
                  \o Opt(f.hyb = 1, <<<<N(b1), "y", -1>>>>)
                  \o Opt(f.hyb = 2, <<<<RMul("-0.7", b1), "y", -1>>, <<RMul("-0.3", b1), "y", -2>>>>)
                  \o Opt(f.fbk = 1, <<<<"-0.08", "w", -1>>>>)
        supply == <<<<"1.0", "Pi", 0>>, <<N(IF f.pib = 0 THEN c.bet ELSE RMul("0.7", c.bet)), "Pi", 1>>, <<N(c.kap), "y", 0>>>>
                  \o Opt(f.pib = 1, <<<<RMul("-0.3", c.bet), "Pi", -1>>>>)
                  \o Opt(f.two > 0, <<<<"-0.2", "z", 0>>>>)
        udef == <<<<"1.0", "u", 0>>, <<N(c.rho), "u", -1>>, <<IF f.shl < 4 THEN "-1.0" ELSE "-0.05", "e_u", 0>>>>
                \o Opt(f.shl \in 1..3, <<<<"-0.45", "e_u", -f.shl>>>>)
                \o Opt(f.shl \in 2..3, <<<<"0.15", "e_u", -1>>>>)
                \o Opt(f.shl \in 4..5, <<<<"-0.9", "e_u", 2 - f.shl>>>>)
        zdef == <<<<"1.0", "z", 0>>, <<"-0.6", "z", -1>>, <<"-1.0", "e_z", 0>>>>
                \o Opt(f.two = 2, <<<<"0.2", "z", -2>>>>)
        wdef == <<<<"1.0", "w", 0>>, <<"-0.25", "y", 0>>>>
                \o Opt(f.wld > 0, <<<<"-0.6", f.wldv, f.wld>>>>)
                \o Opt(f.wld > 2, <<<<"0.35", f.wldv, f.wld - 1>>>>)
                \o Opt(f.wlg > 0, <<<<"-0.5", f.wlgv, -f.wlg>>>>)
                \o Opt(f.wlg > 2, <<<<"0.3", f.wlgv, 1 - f.wlg>>>>)
        sdef == <<<<"1.0", "stat", 0>>, <<"-2.0", "Pi", 0>>, <<"1.0", "r", 0>>>>
        rk == IF f.own = 1 THEN RSub("1.0", c.rr) ELSE "1.0"
        rule == <<<<RMul(rk, c.phi), "Pi", 0>>, <<RMul(rk, c.phy), "y", 0>>>>
                \o Opt(f.own = 1, <<<<c.rr, "r", -1>>>>)
                \o Opt(f.cy = 1, <<<<"0.12", "y", -1>>>>)
                \o Opt(f.cpi = 1, <<<<"0.3", "Pi", -1>>>>)
                \o Opt(f.cu = 1, <<<<"-0.2", "u", 0>>, <<"0.1", "u", -1>>>>)
                \o Opt(f.ce = 1, <<<<"0.25", "e_u", 0>>>>)
        vars0 == <<"y", "Pi", "r", "u">> \o Opt(f.two > 0, <<"z">>) \o Opt(HasW(f), <<"w">>) \o Opt(f.cst = 1, <<"stat">>)
        eqs0  == <<demand, supply, udef>> \o Opt(f.two > 0, <<zdef>>) \o Opt(HasW(f), <<wdef>>) \o Opt(f.cst = 1, <<sdef>>)
        shocks0 == <<"e_u">> \o Opt(f.two > 0, <<"e_z">>)
        Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
        Rot(s) == [i \in 1..Len(s) |-> s[1 + (i % Len(s))]]
        P(s) == CASE f.ord = 0 -> s [] f.ord = 1 -> Rev(s) [] f.ord = 2 -> Rot(s) [] f.ord = 3 -> Rot(Rev(s))
        Q(s) == CASE f.ord = 0 -> s [] f.ord = 1 -> s [] f.ord = 2 -> Rev(s) [] f.ord = 3 -> Rot(s)
    IN [vars |-> P(vars0), shocks |-> (IF f.ord \in {1, 3} THEN Rev(shocks0) ELSE shocks0),
        eqs |-> Q(eqs0), con |-> [var |-> "r", terms |-> rule],
        xbar |-> CASE f.xb = 0 -> "-1.0" [] f.xb = 1 -> "-0.35" [] f.xb = 2 -> "-0.6" [] f.xb = 3 -> "-1.0" [] f.xb = 4 -> "-0.004",
        xbkind |-> f.xb, sty |-> f.sty, feat |-> f]
=============================================================================
