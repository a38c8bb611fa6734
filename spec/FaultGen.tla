------------------------------- MODULE FaultGen -------------------------------
(* Files with one fault or none, and histories of writing and reading them. *)
EXTENDS ModelGen, SequencesExt, Json, IOUtils
VARIABLES f, i, ops, ph

FKeys == <<"hyb", "pib", "shl", "wld", "wldv", "wlg", "wlgv", "own", "cy", "cu", "ce", "two", "cst", "cv", "xb", "sty", "ord">>
FChoices(k) == IF k \in {"shl", "wld", "wlg"} THEN 0..3 ELSE Choices(k)
TheObs == << [name |-> "Infl", terms |-> <<<<"1.0", "Pi", 0>>>>, const |-> "0.5"],
             [name |-> "FFR", terms |-> <<<<"4.0", "r", 0>>, <<"0.3", "u", 0>>>>, const |-> "0.9"] >>
Good(ff) == LET m == MakeModel(ff) IN
    [obs |-> TheObs, cons |-> <<[lhs |-> m.con.var, form |-> "eq", terms |-> m.con.terms]>>, pars |-> <<"g1", "g2">>, blank |-> FALSE,
     cov |-> [s \in Range(m.shocks) |-> "1.0"]] @@ m

\* the faults: F with one thing changed
Bad(F) ==
    \* a symbol or coefficient that is not defined
    {[F EXCEPT !.eqs[q][j][2] = "qq"] : q \in 1..Len(F.eqs), j \in {1, 2}}
    \cup {[F EXCEPT !.eqs[q][2][1] = "foo"] : q \in 1..Len(F.eqs)}
    \cup {[F EXCEPT !.cons[1].terms[1][j] = IF j = 1 THEN "foo" ELSE "qq"] : j \in {1, 2}}
    \cup {[F EXCEPT !.obs[o].terms[1][j] = IF j = 1 THEN "foo" ELSE "qq"] : o, j \in {1, 2}}
    \cup {[F EXCEPT !.cov["e_u"] = "foo"]}
    \* equations too many or too few
    \cup {[F EXCEPT !.eqs = SubSeq(@, 1, Len(@) - 1)], [F EXCEPT !.eqs = Tail(@)], [F EXCEPT !.eqs = Append(@, <<<<"1.0", "y", 0>>, <<"-0.3", "Pi", 0>>>>)],
          [F EXCEPT !.eqs = Append(@, @[1])], [F EXCEPT !.vars = SubSeq(@, 1, Len(@) - 1)], [F EXCEPT !.vars = Append(@, "more")],
          [F EXCEPT !.vars = Append(@, @[1])], [F EXCEPT !.vars = Append(@, @[1]), !.eqs = Append(@, @[2])]}
    \* constraints
    \cup {[F EXCEPT !.cons = <<>>], [F EXCEPT !.cons = <<>>, !.eqs = Append(@, Append(F.con.terms, <<"-1.0", F.con.var, 0>>))],
          [F EXCEPT !.cons = @ \o @], [F EXCEPT !.cons = Append(@, [lhs |-> "y", form |-> "eq", terms |-> <<<<"0.5", "Pi", 0>>>>])],
          [F EXCEPT !.cons = Append(@, [lhs |-> "y", form |-> "eq", terms |-> <<<<"0.5", "Pi", 0>>>>]), !.eqs = Tail(@)]}
    \cup {[F EXCEPT !.cons[1].form = x] : x \in {"expr", "twoeq"}}
    \cup {[F EXCEPT !.cons[1].lhs = x] : x \in {"2*r", "qq", "r y", "g1", "r(-1)", "r + y", "-r"}}
    \cup {[F EXCEPT !.cons[1].terms = Append(@, <<"0.1", v, d>>)] : v \in {"Pi", "y", "u", "r"}, d \in {1, 2}}
    \* names with blanks
    \cup {[F EXCEPT !.vars = <<F.vars[1] \o " " \o F.vars[2]>> \o SubSeq(@, 3, Len(@)), !.blank = TRUE],
          [F EXCEPT !.vars = Append(@, "a b"), !.eqs = Append(@, <<<<"1.0", "y", 0>>, <<"-0.3", "Pi", 0>>>>), !.blank = TRUE],
          [F EXCEPT !.vars = <<F.vars[1] \o " x">> \o Tail(@), !.blank = TRUE]}
    \* symbols without use
    \cup {[F EXCEPT !.vars = Append(@, "ghost"), !.eqs = Append(@, <<<<"1.0", "y", 0>>, <<"-0.3", "Pi", 0>>>>)],
          [F EXCEPT !.vars = <<"ghost">> \o @, !.eqs = <<<<<<"1.0", "y", 0>>, <<"-0.3", "Pi", 1>>>>>> \o @],
          [F EXCEPT !.vars = Append(@, "ghost"), !.eqs = Append(@, <<<<"1.0", "y", 0>>, <<"-0.3", "Pi", 0>>>>), !.obs[1].terms = Append(@, <<"1.0", "ghost", 0>>)],
          [F EXCEPT !.shocks = Append(@, "e_g")], [F EXCEPT !.shocks = <<"e_g">> \o @],
          [F EXCEPT !.shocks = Append(@, "e_g"), !.obs[2].terms = Append(@, <<"1.0", "e_g", 0>>)]}
    \* lags, leads and shocks in observation equations
    \cup {[F EXCEPT !.obs[o].terms = Append(@, <<"0.4", v, d>>)] : o \in {1, 2}, v \in {"y", "u", "Pi"}, d \in {1, 2}}
    \cup {[F EXCEPT !.obs[o].terms = Append(@, <<"0.4", "e_u", d>>)] : o \in {1, 2}, d \in {-1, 0}}
    \cup {[F EXCEPT !.obs[o].terms = Append(@, <<"-1.0", v, d>>)] : o \in {1, 2}, v \in {"y", "u", "r", "Pi"}, d \in {-1, -2}}
    \cup {[F EXCEPT !.obs[1].terms[1][3] = -1]}
    \* bound
    \cup {[F EXCEPT !.xbar = x, !.xbkind = y] : x \in {"0.4", "1e-3", "2.0"}, y \in {0, 2}}

Wr(F) == [op |-> "write", F |-> F]
Init0 == f = Base /\ i = 1 /\ ops = <<>> /\ ph = "f"
Next0 ==
    \/ /\ ph = "f" /\ i <= Len(FKeys) /\ \E v \in FChoices(FKeys[i]) : f' = [f EXCEPT ![FKeys[i]] = v]
       /\ i' = i + 1 /\ UNCHANGED <<ops, ph>>
    \/ /\ ph = "f" /\ i = Len(FKeys) + 1 /\ ph' = "ops" /\ ops' \in {<<>>, <<Wr(Good(f))>>} /\ UNCHANGED <<f, i>>
    \/ /\ ph = "ops" /\ Len(ops) < 9 /\ \E F \in Bad(Good(f)) : ops' = Append(ops, Wr(F)) /\ UNCHANGED <<f, i>> /\ ph' = "next"
    \/ /\ ph = "next" /\ Len(ops) < 9 /\ ph' = "ops" /\ UNCHANGED <<f, i, ops>>
    \/ /\ ph = "next" /\ Len(ops) < 9
       /\ \/ ops' = ops \o <<Wr(Good(f))>> /\ UNCHANGED f
          \/ \E g \in {[f EXCEPT !.cv = (@ + 1) % 3], [f EXCEPT !.own = 1 - @], [f EXCEPT !.xb = 1]} : f' = g /\ ops' = ops \o <<Wr(Good(g))>>
       /\ ph' = "ops" /\ UNCHANGED i
    \/ /\ ph \in {"ops", "next"} /\ Len(ops) >= 9 /\ PrintT("@@" \o ToJson([ops |-> ops \o <<Wr(Good(f))>>])) /\ ph' = "end" /\ UNCHANGED <<f, i, ops>>

\* every fault once
OneInit == f \in {Base, [Base EXCEPT !.own = 1, !.hyb = 1, !.wld = 2, !.wldv = "y"]} /\ i = 0 /\ ops = <<>> /\ ph = "one"
OneNext == /\ ph = "one" /\ ph' = "end" /\ UNCHANGED <<f, i, ops>>
           /\ \A F \in Bad(Good(f)) : PrintT("@@" \o ToJson([ops |-> <<Wr(F), Wr(Good(f))>>]))
===============================================================================
