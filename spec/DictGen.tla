-------------------------------- MODULE DictGen -------------------------------
(* Histories with dictionaries of system matrices. *)
EXTENDS ModelGen, SequencesExt, Json, IOUtils
VARIABLES f, i, ops, ph, hn    \* hn: the form each dictionary has now

\* first-order features only: a dictionary has one lead and one lag
DKeys == <<"hyb", "pib", "wld", "wldv", "wlg", "wlgv", "fbk", "own", "cy", "cpi", "cu", "ce", "two", "cst", "cv", "xb", "ord">>
DChoices(k) == IF k \in {"hyb", "wld", "wlg", "two"} THEN 0..1 ELSE Choices(k)
ObsOf(n) == CASE n = 0 -> <<>>
              [] n = 1 -> <<[name |-> "Infl", terms |-> <<<<"1.0", "Pi", 0>>>>, const |-> "0.5"], [name |-> "FFR", terms |-> <<<<"1.0", "r", 0>>>>, const |-> "0.9"]>>
              [] n = 2 -> <<[name |-> "FFR", terms |-> <<<<"4.0", "r", 0>>, <<"0.3", "u", 0>>>>, const |-> "0.0"], [name |-> "GDP", terms |-> <<<<"-1.0", "y", 0>>, <<"0.5", "Pi", 0>>>>, const |-> "-0.2"], [name |-> "U", terms |-> <<<<"2.0", "u", 0>>>>, const |-> "1.0"]>>
Mod(ff, xb, n) == [obs |-> ObsOf(n)] @@ [MakeModel(ff) EXCEPT !.sty = 0, !.xbar = IF xb = "" THEN @ ELSE xb, !.xbkind = IF xb = "" THEN @ ELSE 0]
Obsn == 0..2
How == {[eq |-> a[1], con |-> a[2], nofd |-> a[3], swap |-> a[4]] : a \in {<<"1.0", "1.0", FALSE, FALSE>>, <<"-0.5", "2.5", TRUE, FALSE>>, <<"3.0", "-1.0", TRUE, TRUE>>}}
LKs == {<<-1, -1>>, <<2, 6>>, <<4, 12>>, <<-1, 9>>, <<3, 3>>}
Changes(g) == {[g EXCEPT !.cv = (@ + 1) % 3], [g EXCEPT !.own = 1 - @], [g EXCEPT !.cu = 1 - @], [g EXCEPT !.ce = 1 - @], [g EXCEPT !.cst = 1 - @], [g EXCEPT !.pib = 1 - @]}
Hn0 == [n |-> 0, h |-> [eq |-> "1.0", con |-> "1.0", nofd |-> FALSE, swap |-> FALSE]]
Gen(d, lk, fo, c) == [op |-> "gen", d |-> d, lmax |-> lk[1], kmax |-> lk[2], force |-> fo, copy |-> c]
Edit(d, m, h, inp) == [op |-> "edit", d |-> d, m |-> m, how |-> h, inplace |-> inp]
Init0 == f = [d \in {1, 2} |-> Base] /\ hn = [d \in {1, 2} |-> Hn0] /\ i = 1 /\ ops = <<>> /\ ph = 1
Next0 ==
    \* two models
    \/ /\ ph \in {1, 2} /\ i <= Len(DKeys)
       /\ \E v \in DChoices(DKeys[i]) : f' = [f EXCEPT ![ph][DKeys[i]] = v]
       /\ i' = i + 1 /\ UNCHANGED <<ops, ph, hn>>
    \/ /\ ph \in {1, 2} /\ i = Len(DKeys) + 1
       /\ \E n \in Obsn, h \in How : ops' = Append(ops, [op |-> "dict", d |-> ph, m |-> Mod(f[ph], "", n), how |-> h]) /\ hn' = [hn EXCEPT ![ph] = [n |-> n, h |-> h]]
       /\ ph' = ph + 1 /\ i' = 1 /\ UNCHANGED f
    \* gen and edits in turn; i chooses the kind of the next operation, so that all kinds are about equally frequent
    \/ /\ ph \in {3, 4} /\ Len(ops) < 10 /\ i \notin 101..106
       /\ i' \in 101..106 /\ UNCHANGED <<f, ops, ph, hn>>
    \/ /\ ph = 3 /\ Len(ops) < 10 /\ i \in 101..106
       /\ CASE i = 101 -> \E d \in {1, 2}, lk \in LKs : ops' = Append(ops, Gen(d, lk, FALSE, FALSE))
            [] i = 102 -> \E d \in {1, 2}, fo \in BOOLEAN, c \in BOOLEAN : ops' = Append(ops, Gen(d, <<-1, -1>>, fo, c))
            [] OTHER   -> ops' = Append(ops, Gen(ops[Len(ops)].d, <<-1, -1>>, FALSE, i = 103))
       /\ ph' = 4 /\ i' = 1 /\ UNCHANGED <<f, hn>>
    \/ /\ ph = 4 /\ Len(ops) < 10 /\ i \in 101..106
       /\ CASE i = 101 -> UNCHANGED <<f, ops, hn>>
            \* one entry of the dictionary processed last changes, everything else stays
            [] i \in {102, 103} -> LET d == ops[Len(ops)].d IN \E inp \in BOOLEAN : \E g \in Changes(f[d]) :
                    f' = [f EXCEPT ![d] = g] /\ UNCHANGED hn /\ ops' = Append(ops, Edit(d, Mod(g, "", hn[d].n), hn[d].h, inp))
            [] i = 104 -> LET d == ops[Len(ops)].d IN \E inp \in BOOLEAN, xb \in {"-0.5", "-0.2", "0.0"} :
                    ops' = Append(ops, Edit(d, Mod(f[d], xb, hn[d].n), hn[d].h, inp)) /\ UNCHANGED <<f, hn>>
            [] i = 105 -> LET d == ops[Len(ops)].d IN \E inp \in BOOLEAN, n \in Obsn :
                    ops' = Append(ops, Edit(d, Mod(f[d], "", n), hn[d].h, inp)) /\ hn' = [hn EXCEPT ![d].n = n] /\ UNCHANGED f
            [] i = 106 -> \E d \in {1, 2}, n \in Obsn, h \in How, inp \in BOOLEAN : \E g \in Changes(f[d]) :
                    /\ f' = [f EXCEPT ![d] = g] /\ hn' = [hn EXCEPT ![d] = [n |-> n, h |-> h]]
                    /\ ops' = Append(ops, Edit(d, Mod(g, "", n), h, inp))
       /\ ph' = 3 /\ i' = 1
    \/ /\ ph \in {3, 4} /\ Len(ops) >= 10
       /\ PrintT("@@" \o ToJson([ops |-> ops])) /\ ph' = 9 /\ UNCHANGED <<f, i, ops, hn>>
===============================================================================
