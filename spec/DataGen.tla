------------------------------- MODULE DataGen -------------------------------
(* Histories of loading data: all kinds of indices, boundaries, columns, gaps. *)
EXTENDS DataLoad, Json, IOUtils
VARIABLES ops, kind, cur

\* kinds of indices with their step in months (or units of the label) and the units in which boundaries may be given
Kinds == {"Q", "M", "Y", "PQ", "PM", "int", "int2", "float", "str"}
Step(k) == CASE k \in {"Q", "PQ"} -> 3 [] k \in {"M", "PM"} -> 1 [] k = "Y" -> 12 [] OTHER -> 1
Units(k) == CASE k = "Q" -> {12, 3, 1, 0} [] k = "PQ" -> {12, 3} [] k \in {"M"} -> {12, 3, 1, 0} [] k = "PM" -> {12, 1} [] k = "Y" -> {12, 0} [] OTHER -> {1}
T0(k) == CASE k \in {"Q", "PQ"} -> 12 * 1998 + 3 [] k \in {"M", "PM"} -> 12 * 1999 + 9 [] k = "Y" -> 12 * 1990 [] k = "int" -> 0 [] k = "int2" -> 7 [] k = "float" -> 1990 [] k = "str" -> 0
\* period of unit u (months) that contains label t; u = 0: the point itself
Per(u, t) == IF u = 0 THEN <<t, t>> ELSE <<(t \div u) * u, (t \div u) * u + u - 1>>
ColSets == {<<"GDP", "Infl", "FFR">>, <<"FFR", "GDP", "Infl">>, <<"x", "Infl", "FFR", "y", "GDP">>, <<"Infl", "FFR", "GDP", "GDP2">>}
MissCols == {<<"GDP", "Infl">>, <<"FFR", "x", "GDP">>, <<>>, <<"gdp", "Infl", "FFR">>}

Base(k) == [op |-> "load", kind |-> k, t0 |-> T0(k), step |-> Step(k), form |-> "frame"]
Sizes == {1, 2, 5, 9}
Init0 == ops = <<>> /\ kind = "" /\ cur = <<>>
Emit == PrintT("@@" \o ToJson([ops |-> ops]))
Stage == IF cur = <<>> THEN 0 ELSE Cardinality(DOMAIN cur)
\* a load is composed step by step
Next0 ==
    \/ /\ kind = "" /\ Len(ops) < 7
       /\ \/ kind' \in Kinds /\ \E n \in Sizes, s \in 0..5 : cur' = [n |-> n, salt |-> s] @@ Base(kind') /\ UNCHANGED ops
          \/ /\ Len(ops) > 0 /\ \E o \in {"edit", "store"} : ops' = Append(ops, [op |-> o]) /\ UNCHANGED <<kind, cur>>
    \/ /\ kind \notin {"", "end"} /\ "cols" \notin DOMAIN cur
       /\ \E c \in ColSets \cup (IF cur.salt = 3 THEN MissCols ELSE {}) : cur' = [cols |-> c] @@ cur
       /\ UNCHANGED <<ops, kind>>
    \/ /\ kind \notin {"", "end"} /\ "cols" \in DOMAIN cur /\ "b" \notin DOMAIN cur
       /\ \/ cur' = [b |-> 0] @@ cur
          \/ \E i \in 1..cur.n, u \in Units(kind), f \in 0..2 : cur' = [b |-> 1, from |-> Per(u, Label(cur, i)), fu |-> u, ff |-> f] @@ cur
          \/ \E i \in 1..cur.n, u \in Units(kind), f \in 0..2 : cur' = [b |-> 1, upto |-> Per(u, Label(cur, i)), uu |-> u, uf |-> f] @@ cur
          \/ \E i, j \in 1..cur.n, u, w \in Units(kind), f, g \in 0..2 : i <= j /\ Per(u, Label(cur, i))[1] <= Per(w, Label(cur, j))[2]
                /\ cur' = [b |-> 2, from |-> Per(u, Label(cur, i)), fu |-> u, ff |-> f, upto |-> Per(w, Label(cur, j)), uu |-> w, uf |-> g] @@ cur
       /\ UNCHANGED <<ops, kind>>
    \/ /\ kind \notin {"", "end"} /\ "b" \in DOMAIN cur /\ "nans" \notin DOMAIN cur
       /\ \/ cur' = [nans |-> <<>>] @@ cur
          \/ cur.cols # <<>> /\ \E i \in 1..cur.n, c \in DRange(cur.cols) : cur' = [nans |-> <<<<i, c>>>>] @@ cur
          \/ cur.salt = 5 /\ cur' = [nans |-> <<>>, form |-> "array"] @@ cur
       /\ UNCHANGED <<ops, kind>>
    \/ /\ kind \notin {"", "end"} /\ "nans" \in DOMAIN cur
       /\ ops' = Append(ops, cur) /\ kind' = "" /\ cur' = <<>>
    \/ /\ kind = "" /\ Len(ops) = 7 /\ Emit /\ kind' = "end" /\ UNCHANGED <<ops, cur>>
===============================================================================
