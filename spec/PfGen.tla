-------------------------------- MODULE PfGen --------------------------------
(* Systems of definitions of derived parameters in random order, and changes of the parameters. *)
EXTENDS ParaFunc, Json, IOUtils
VARIABLES defs, order, ops, ph, n

Fam == IOEnv.FAM
PNames == {"bet", "th", "sg", "phi_pi", "rho_u", "s_u", "elb", "ybar"}
DName(i) == <<"d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8">>[i]
Plain == {"add", "sub", "mul", "sqrt", "exp", "log", "norm", "neg", "const"}
Special == {"lin", "sat", "ppf", "inv"}
Earlier(i) == {DName(j) : j \in 1..(i - 1)}
AllD(k) == {DName(j) : j \in 1..k}
\* operands
Opnd(i) == IF i = 1 THEN PNames ELSE Earlier(i) \cup {"bet", "th", "phi_pi"}
Init0 == defs = <<>> /\ order = <<>> /\ ops = <<>> /\ ph = "size" /\ n = 0
Finals(k) == {[kap |-> x, x_bar |-> y, sr2 |-> z, oc |-> w] : x, y, z, w \in {DName(k), DName((k + 1) \div 2), "bet"}}
Pool == Range(defs)
Vecs == {ParVec([Calib EXCEPT ![q[1]] = q[2], ![r[1]] = r[2]]) : q \in {<<"bet", "0.985">>, <<"th", "0.6">>, <<"phi_pi", "2.2">>}, r \in {<<"rho_u", "0.55">>, <<"s_u", "0.9">>, <<"elb", "0.6">>, <<"ybar", "0.1">>}}
        \cup {EstVec([Calib EXCEPT ![q[1]] = q[2]]) : q \in {<<"th", "0.55">>, <<"phi_pi", "2.5">>, <<"s_u", "1.2">>}}
Ops == {[op |-> "set", name |-> q[1], value |-> q[2]] : q \in {<<"bet", "0.98">>, <<"th", "0.62">>, <<"th", "0.7">>, <<"sg", "1.1">>, <<"phi_pi", "2.0">>, <<"rho_u", "0.6">>, <<"s_u", "0.8">>, <<"elb", "0.7">>, <<"ybar", "0.2">>}}
       \cup {[op |-> "set", vec |-> v] : v \in Vecs} \cup {[op |-> "npar", vec |-> v] : v \in Vecs}
Next0 ==
    \/ /\ ph = "size" /\ \E k \in (IF Fam = "rev" THEN 5..8 ELSE 3..8) : n' = k
       /\ ph' = "defs" /\ UNCHANGED <<defs, order, ops>>
    \/ /\ ph = "defs" /\ Len(defs) < n
       /\ LET i == Len(defs) + 1 IN
          \E t \in (IF Fam = "rev" THEN (Plain \cup Special) \ {"const"} ELSE Plain \cup Special), a \in (IF Fam = "rev" /\ i > 1 THEN {DName(i - 1)} ELSE IF i > 1 THEN {DName(i - 1)} \cup Opnd(i) ELSE Opnd(i)), b \in (IF Fam = "any" THEN AllD(n) \cup {"bet", "nosuch"} ELSE Opnd(i)) :
             defs' = Append(defs, <<DName(i), [t |-> t, a |-> IF i > 1 /\ t \in {"neg", "sat"} THEN DName(i - 1) ELSE a, b |-> b]>>)
       /\ UNCHANGED <<order, ops, ph, n>>
    \/ /\ ph = "defs" /\ Len(defs) = n
       /\ \E f \in Finals(n) : defs' = defs \o <<<<"kap", [t |-> "kap", a |-> f.kap, b |-> "th"]>>, <<"x_bar", [t |-> "xbar", a |-> f.x_bar, b |-> "elb"]>>,
                                                <<"sr2", [t |-> "sr2", a |-> f.sr2, b |-> "bet"]>>, <<"oc", [t |-> "add", a |-> f.oc, b |-> "ybar"]>>>>
       /\ ph' = "perm" /\ UNCHANGED <<order, ops, n>>
    \* random order of declaration
    \/ /\ ph = "perm" /\ Len(order) < Len(defs)
       \* "rev": every definition comes before what it depends on
       /\ IF Fam = "rev" THEN order' = Append(order, defs[Len(defs) - Len(order)])
          ELSE \E d \in Pool \ Range(order) : order' = Append(order, d)
       /\ UNCHANGED <<defs, ops, ph, n>>
    \/ /\ ph = "perm" /\ Len(order) = Len(defs)
       /\ \E fv \in {"g1", "g2", "g1", "none"} : (fv = "none" => \A d \in Pool : ~NeedsFile(d[2].t) \/ Fam = "any") /\ ops' = <<[op |-> "read", defs |-> order, fv |-> fv]>>
       /\ ph' = "ops" /\ UNCHANGED <<defs, order, n>>
    \/ /\ ph = "ops" /\ Len(ops) < 6 /\ \E o \in Ops : ops' = Append(ops, o)
       /\ UNCHANGED <<defs, order, ph, n>>
    \/ /\ ph = "ops" /\ Len(ops) = 6 /\ PrintT("@@" \o ToJson([ops |-> ops]))
       /\ ph' = "end" /\ UNCHANGED <<defs, order, ops, n>>
===============================================================================
