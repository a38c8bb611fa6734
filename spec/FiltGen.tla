------------------------------- MODULE FiltGen -------------------------------
(* Generation of models with observables, data, and filter runs (simulation mode). *)
EXTENDS ModelGen, Json, IOUtils
VARIABLES f, i, m, ops

Plain == IOEnv.FAM = "ens"        \* the states of the ensemble filter are declared variables
FChoices(k) == IF k = "two" THEN (IF Plain THEN {1} ELSE 1..2)
               ELSE IF Plain /\ k = "shl" THEN {0}
               ELSE IF Plain /\ k \in {"wld", "wlg", "hyb"} THEN 0..1
               ELSE IF Plain /\ k = "cu" THEN {0, 1}
               ELSE Choices(k)

\* very small models: as many variables as shocks
Tiny(a, b, c) ==
    [vars |-> <<"y", "r">>, shocks |-> <<"e_u", "e_z">>,
     eqs |-> << << <<"1.0", "y", 0>>, <<RNeg(a), "y", 1>>, <<"0.5", "r", 0>>, <<RNeg(b), "r", -1>>, <<"-1.0", "e_u", 0>>, <<"-0.2", "e_z", 0>> >> >>,
     con |-> [var |-> "r", terms |-> << <<"1.5", "y", 0>>, <<c, "r", -1>>, <<"0.3", "e_z", 0>> >>],
     xbar |-> "-0.9", xbkind |-> 0, sty |-> 0]
Tinies == {Tiny(a, b, c) : a \in {"0.5", "0.8"}, b \in {"0.0", "0.25"}, c \in {"0.4", "0.7"}}

ObsChoices == { << [name |-> "oa", terms |-> <<<<"1.0", "y", 0>>>>, const |-> "0.3"], [name |-> "ob", terms |-> <<<<"1.0", "r", 0>>>>, const |-> "0.0"] >>,
                << [name |-> "zz", terms |-> <<<<"1.0", "r", 0>>>>, const |-> "1.1"], [name |-> "aa", terms |-> <<<<"2.0", "y", 0>>, <<"-0.5", "r", 0>>>>, const |-> "-0.2"] >> }
Obs3 == << [name |-> "p", terms |-> <<<<"1.0", "Pi", 0>>, <<"0.3", "y", 0>>>>, const |-> "0.5"], [name |-> "ob", terms |-> <<<<"1.0", "r", 0>>, <<"-1.0", "Pi", 0>>>>, const |-> "0.0"] >>
Sigs == {[s \in {"e_u", "e_z"} |-> IF s = "e_u" THEN a ELSE b] : a \in {"0.5", "1.3"}, b \in {"0.2", "0.9"}}

RECURSIVE Lcg(_, _)
Lcg(s, n) == IF n = 0 THEN s ELSE (Lcg(s, n - 1) * 137 + 71) % 997
Noise(s, n, sc) == RMul(sc, RDiv(RSub(RNum(Lcg(s, n)), "498.0"), "498.0"))
Data(T, s, sc) == [t \in 1..T |-> [o \in 1..2 |-> RAdd(Noise(s + 17 * o, 3 * t + o, sc), IF s % 2 = 0 /\ t = 2 /\ o = 1 THEN "-1.5" ELSE "0.0")]]
Rs == { << <<"0.04", "0.0">>, <<"0.0", "0.02">> >>, << <<"0.3", "0.1">>, <<"0.1", "0.4">> >> }
\* (news that arrive long before they matter and nearly no measurement errors: too close to singular to compare)
RTiny == << <<"1e-06", "0.0">>, <<"0.0", "1e-06">> >>
FilterOps == IF Plain THEN {[op |-> "filter", lin |-> FALSE, R |-> r, Z |-> Data(4, s, "0.8"), N |-> n, rf |-> q] : r \in Rs, s \in {11, 306, 640}, n \in {12, 17}, q \in BOOLEAN}
             ELSE {[op |-> "filter", lin |-> TRUE, R |-> r, Z |-> Data(T, s, "0.8")] : r \in Rs, s \in {11, 306, 640}, T \in {2, 6}}
                  \cup {[op |-> "extract", R |-> r, Z |-> Data(T, s, "0.8")] : s \in {11, 306}, T \in {3, 6}, r \in Rs \cup (IF f.shl >= 4 THEN {} ELSE {RTiny})}

\* a model in use: samples of two members, each from where the model is or from zero
Use == IOEnv.FAM \in {"useC05", "useC13", "useC14", "useC19", "useC21"}
SizesU == IF f.shl >= 4 THEN <<"0.0", "0.25", "-0.2", "0.5", "0.1", "0.4">> ELSE <<"0.0", "0.9", "-0.6", "2.2", "0.3", "1.5">>
SizesZ == <<"0.0", "-1.5", "0.7", "0.0", "2.0", "-0.4">>
Eps(T, s) == [t \in 1..T |-> [q \in {"e_u", "e_z"} |-> IF q = "e_u" THEN SizesU[(Lcg(s, t) % 6) + 1] ELSE SizesZ[(Lcg(s + 5, 2 * t) % 6) + 1]]]
Masks == { <<"0.0", "nan">>, <<"nan", "0.0">>, <<"0.5", "nan">>, <<"nan", "nan">> }
SampleOf(T, s, h) == <<[here |-> h, eps |-> Eps(T, s)], [here |-> s % 2 = 0, eps |-> Eps(T, s + 31)]>>
Kinds == CASE IOEnv.FAM = "useC05" -> {"simu", "mask"} [] IOEnv.FAM = "useC13" -> {"nhd"} [] IOEnv.FAM = "useC14" -> {"gfevd"}
           [] IOEnv.FAM = "useC19" -> {"traj", "kmap"} [] IOEnv.FAM = "useC21" -> {"simu"}
UseOps(k) ==
    CASE k = "simu" -> {[op |-> "simu", linear |-> lin, members |-> SampleOf(T, s, h)] : lin \in BOOLEAN, T \in {2, 7}, s \in {4, 21, 160}, h \in BOOLEAN}
      [] k = "mask" -> {[op |-> "simu", linear |-> lin, members |-> SampleOf(4, s, h), mask |-> <<a, b, a, <<"nan", "nan">>>>, oper |-> o]
                            : lin \in BOOLEAN, s \in {4, 33}, h \in BOOLEAN, a \in Masks, b \in Masks, o \in {"mul", "add", "rep"}}
      [] k = "nhd" -> {[op |-> "nhd", linear |-> lin, members |-> SampleOf(T, s, h)] : lin \in BOOLEAN, T \in {1, 6}, s \in {4, 21, 160, 77}, h \in BOOLEAN}
      [] k = "gfevd" -> {[op |-> "gfevd", linear |-> lin, members |-> SampleOf(T, s, h), horizon |-> n] : lin \in BOOLEAN, T \in {2, 4}, s \in {4, 21, 160}, h \in BOOLEAN, n \in {1, 2, 5}}
      [] k = "traj" -> {[op |-> "traj", e |-> Eps(1, s)[1], lk |-> lk] : s \in 1..12, lk \in {<<-1, -1>>, <<0, 0>>, <<1, 2>>, <<0, 3>>}}
      [] k = "kmap" -> {[op |-> "kmap", e |-> Eps(1, s)[1], lk |-> lk] : s \in 1..12, lk \in {<<-1, -1>>, <<1, -1>>, <<1, 2>>, <<-1, 3>>}}
Steps == {[op |-> "step", e |-> Eps(1, s)[1]] : s \in {3, 8, 50, 120}}

\* read, solve, filter, solve again, filter, ...
Solves == {[op |-> "solve", lmax |-> lk[1], kmax |-> lk[2]] : lk \in {<<-1, -1>>, <<2, 6>>, <<1, 3>>, <<2, 9>>}}
GenInit == f = Base /\ i = 1 /\ m = <<>> /\ ops = <<>>
GenNext ==
    \/ /\ i <= Len(Keys)
       /\ \E v \in FChoices(Keys[i]) : f' = [f EXCEPT ![Keys[i]] = v]
       /\ i' = i + 1 /\ UNCHANGED <<m, ops>>
    \/ /\ i = Len(Keys) + 1
       /\ \E t \in 1..4 : \E o \in ObsChoices \cup (IF t = 1 THEN {} ELSE {Obs3}), q \in Sigs :
            m' = (IF t = 1 THEN CHOOSE x \in {Tiny(IF f.cv = 1 THEN "0.8" ELSE "0.5", IF f.hyb = 1 THEN "0.0" ELSE "0.25", IF f.own = 1 THEN "0.7" ELSE "0.4")} : TRUE
                  ELSE MakeModel(f)) @@ [obs |-> o, sig |-> q]
       /\ i' = i + 1 /\ UNCHANGED <<f, ops>>
    \/ /\ i = Len(Keys) + 2 /\ Use /\ Len(ops) < 9
       /\ \E o \in (IF Len(ops) = 0 THEN {[op |-> "read"]} ELSE IF Len(ops) \in {1, 5} THEN Solves ELSE IF Len(ops) \in {2, 4, 6} THEN Steps
                    ELSE {[op |-> "kind", k |-> k] : k \in Kinds}) :
            IF o.op = "kind" THEN m' = m /\ i' = i + 1 /\ ops' = Append(ops, o) ELSE ops' = Append(ops, o) /\ UNCHANGED <<i, m>>
       /\ UNCHANGED f
    \/ /\ i = Len(Keys) + 3
       /\ \E o \in UseOps(ops[Len(ops)].k) : ops' = [ops EXCEPT ![Len(ops)] = o]
       /\ i' = Len(Keys) + 2 /\ UNCHANGED <<f, m>>
    \/ /\ i = Len(Keys) + 2 /\ ~Use /\ Len(ops) < 5
       /\ \E o \in (IF Len(ops) = 0 THEN {[op |-> "read"]} ELSE IF Len(ops) = 1 THEN Solves ELSE IF Len(ops) = 3 THEN Solves \cup FilterOps ELSE FilterOps) : ops' = Append(ops, o)
       /\ UNCHANGED <<f, i, m>>
    \/ /\ i = Len(Keys) + 2 /\ Len(ops) = (IF Use THEN 9 ELSE 5)
       /\ PrintT("@@" \o ToJson([model |-> m, ops |-> ops]))
       /\ ops' = Append(ops, [op |-> "end"]) /\ UNCHANGED <<f, i, m>>
===============================================================================
