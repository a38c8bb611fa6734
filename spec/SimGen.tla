-------------------------------- MODULE SimGen --------------------------------
(***************************************************************************)
(* Generation of scenarios for the simulation checks.  Simulation mode:    *)
(* feature combinations and histories of operations by random walk.        *)
(* Exhaustive mode (OneInit): every single feature with a fixed history.      *)
(***************************************************************************)
EXTENDS ModelGen, SequencesExt, Json, IOUtils
VARIABLES f, i, ops

Sizes(ff) == IF ff.shl >= 4 THEN {"-0.4", "0.0", "0.2", "0.3", "0.45", "0.6", "1.0"}
             ELSE {"-1.3", "0.0", "0.35", "0.8", "1.4", "2.5", "5.0"}
Sh(ff) == IF ff.two > 0 THEN <<"e_u", "e_z">> ELSE <<"e_u">>
ShS(ff) == {Sh(ff)[j] : j \in 1..Len(Sh(ff))}

LKs == {<<-1, -1>>, <<2, 6>>, <<1, 4>>, <<4, 12>>, <<3, 2>>, <<-1, 9>>, <<1, 0>>, <<3, 1>>}

StepOps(ff) ==
    {[op |-> "step", e |-> [s \in ShS(ff) |-> IF s = "e_u" THEN a ELSE b], ahead |-> 8] : a \in Sizes(ff), b \in {"0.0", "1.2", "-2.0"}}
    \cup {[op |-> "step", e |-> [s \in ShS(ff) |-> "0.0"], ahead |-> 6]}
\* shock sizes right before and right after the durations change
EdgeOps(ff) ==
    {[op |-> "edge", sh |-> s, lo |-> "0.0", hi |-> IF ff.shl >= 4 THEN "1.0" ELSE h, which |-> w] : s \in ShS(ff), h \in {"3.0", "-3.0", "6.0"}, w \in 0..2}
RareOps(ff) ==
    {[op |-> "step", e |-> [s \in {"e_u"} |-> a], linear |-> TRUE, ahead |-> 6] : a \in {"1.4", "-0.6"}}
    \cup {[op |-> "step", e |-> [s \in {"e_u"} |-> a], setk |-> lk, ahead |-> 8] : a \in {"1.0", "0.0"}, lk \in {<<0, 2>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<0, 0>>}}
ShockLists(ff) ==
    {<<<<"e_u", a, 0>>>> : a \in {"0.9", "2.0"}}
    \cup {<<<<"e_u", a, 0>>, <<"e_u", b, 3>>>> : a \in {"0.3", "1.2"}, b \in {"0.8", "1.6"}}
    \cup {<<<<"e_u", a, t>>>> : a \in {"1.5", "3.0"}, t \in {1, 4}}
    \cup (IF ff.two > 0 THEN {<<<<"e_u", "0.8", 0>>, <<"e_z", z, 0>>>> : z \in {"-1.5", "1.5"}} \cup {<<<<"e_z", "-2.0", 2>>, <<"e_u", "1.1", 1>>>>} ELSE {})
IrfOps(ff) ==
    {[op |-> "irfs", shocks |-> s, T |-> 10, linear |-> lin, state |-> z] : s \in ShockLists(ff), lin \in {FALSE, TRUE}, z \in {FALSE, TRUE}}
    \cup {[op |-> "irfs", shocks |-> s, T |-> 8, setk |-> lk, linear |-> FALSE, state |-> FALSE] : s \in {<<<<"e_u", "0.5", 0>>>>, <<<<"e_u", "0.7", 2>>>>},
            lk \in {<<0, 3>>, <<1, 2>>, <<2, 2>>}}

GenInit == f = Base /\ i = 1 /\ ops = <<>>
MaxOps == 12
GenNext ==
    \/ /\ i <= Len(Keys)
       /\ \E v \in Choices(Keys[i]) : f' = [f EXCEPT ![Keys[i]] = v]
       /\ i' = i + 1 /\ UNCHANGED ops
    \/ /\ i = Len(Keys) + 1
       /\ \E lk \in LKs : ops' = <<[op |-> "read"], [op |-> "solve", lmax |-> lk[1], kmax |-> lk[2]]>>
       /\ i' = i + 1 /\ UNCHANGED f
    \/ /\ i > Len(Keys) + 1 /\ Len(ops) < MaxOps
       /\ \E o \in (IF Len(ops) = 2 THEN {[op |-> "again"], [op |-> "reset"]} ELSE IF Len(ops) = 5 THEN RareOps(f) ELSE IF Len(ops) \in {4, 8, 11} THEN EdgeOps(f) ELSE IF Len(ops) \in {6, 10} THEN IrfOps(f) ELSE StepOps(f)) : ops' = Append(ops, o)
       /\ UNCHANGED <<f, i>>
    \/ /\ Len(ops) = MaxOps
       /\ PrintT("@@" \o ToJson([model |-> MakeModel(f), ops |-> ops]))
       /\ ops' = Append(ops, [op |-> "end"]) /\ UNCHANGED <<f, i>>

E(s, h, w) == [op |-> "edge", sh |-> s, lo |-> "0.0", hi |-> h, which |-> w]
\* single features, fixed history
S(a) == [op |-> "step", e |-> [s \in {"e_u"} |-> a], ahead |-> 8]
Fixed(ff) ==
    << [op |-> "read"], [op |-> "solve", lmax |-> IF ff.shl >= 4 THEN (IF ff.own = 1 THEN 4 ELSE 2) ELSE IF ff.own = 1 THEN 2 ELSE -1,
                                     kmax |-> IF ff.shl >= 4 THEN 8 ELSE IF ff.own = 1 THEN 6 ELSE -1]>>
    \o Opt(ff.own = 1 \/ ff.cst = 1, <<[op |-> "again"]>>)
    \o (IF ff.shl >= 4 THEN << S("0.3"), S("0.0"), S("0.2"), S("0.4"), S("0.0"), S("-0.4"), S("0.0"), S("0.0"), S("0.55"), S("0.0")>>
        ELSE <<E("e_u", "3.0", 0), S("1.6"), S("0.0"), S("-0.5"), S("0.7")>>)
    \o <<
       [op |-> "irfs", shocks |-> <<<<"e_u", "1.3", 0>>>>, T |-> 12, linear |-> TRUE, state |-> FALSE],
       [op |-> "irfs", shocks |-> <<<<"e_u", "0.5", 0>>, <<"e_u", "1.5", 2>>>>, T |-> 12, linear |-> FALSE, state |-> TRUE],
       [op |-> "step", e |-> [s \in ShS(ff) |-> IF s = "e_u" THEN "0.9" ELSE "-0.8"], linear |-> TRUE, ahead |-> 6],
       [op |-> "step", e |-> [s \in ShS(ff) |-> IF s = "e_u" THEN "0.9" ELSE "-0.8"], setk |-> <<1, 2>>, ahead |-> 8],
       S("3.0"), E("e_u", IF ff.shl >= 4 THEN "1.0" ELSE "3.0", 1) >>
OneInit == f \in SingleSet /\ i = 0 /\ ops = <<>>
OneNext == /\ i = 0 /\ PrintT("@@" \o ToJson([model |-> MakeModel(f), ops |-> Fixed(f)]))
           /\ i' = 1 /\ UNCHANGED <<f, ops>>

\* grid of shock pairs from the steady state: binding now, later, never
MixSet == {[Base EXCEPT !.cv = c, !.own = o, !.hyb = h, !.two = t] : c \in 0..2, o \in 0..1, h \in 0..1, t \in 1..2}
Pairs == {<<a, b>> : a \in {"0.4", "0.8", "1.2", "1.8", "2.6"}, b \in {"2.0", "4.0", "6.0", "9.0"}}
Mixed == << [op |-> "read"], [op |-> "solve", lmax |-> 4, kmax |-> 12] >>
         \o <<E("e_u", "4.0", 0), E("e_u", "4.0", 2), E("e_z", "12.0", 0), E("e_z", "12.0", 1)>>
         \o FlattenSeq([j \in 1..Len(SetToSeq(Pairs)) |-> LET p == SetToSeq(Pairs)[j] IN
                <<[op |-> "reset"], [op |-> "step", e |-> [s \in {"e_u", "e_z"} |-> IF s = "e_u" THEN p[1] ELSE p[2]], ahead |-> 9]>>
                \o (IF j % 4 = 0 THEN <<E(IF j % 8 = 0 THEN "e_u" ELSE "e_z", IF j % 3 = 0 THEN "-3.0" ELSE "4.0", j % 3)>> ELSE <<>>)])
MixInit == f \in MixSet /\ i = 0 /\ ops = <<>>
MixNext == /\ i = 0 /\ PrintT("@@" \o ToJson([model |-> MakeModel(f), ops |-> Mixed]))
           /\ i' = 1 /\ UNCHANGED <<f, ops>>
===============================================================================
