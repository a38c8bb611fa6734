------------------------------- MODULE ChainGen -------------------------------
(* Histories of sampling runs.  nf: backend file -> walkers of the chain it holds; bf: the file the object was told to use. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils
VARIABLES prior, ops, ph, n, nf, bf, hastune, np
Cand(p) == CASE p = "phi_pi" -> {<<"normal", "1.7", "0.3">>, <<"gamma", "1.7", "0.4">>}
             [] p = "rho_u" -> {<<"beta", "0.7", "0.1">>, <<"uniform", "0.1", "0.95">>}
             [] p = "s_u" -> {<<"inv_gamma", "0.4", "0.3">>, <<"gamma", "0.5", "0.2">>, <<"inv_gamma_dynare", "0.3", "2.0">>}
             [] p = "th" -> {<<"uniform", "0.4", "0.9">>, <<"beta", "0.7", "0.1">>}
             [] p = "sg" -> {<<"gamma", "0.9", "0.2">>, <<"normal", "0.9", "0.1">>}
             [] p = "rho" -> {<<"beta", "0.6", "0.15">>, <<"normal", "0.5", "0.1">>}
Pars == {"phi_pi", "rho_u", "s_u", "th", "sg", "rho"}
Names0 == {prior[i].name : i \in DOMAIN prior}
Default == "pm_sampler.h5"
Where(b, sfx) == IF b = "none" THEN "mem" ELSE IF b # "default" THEN b ELSE IF bf # "" THEN bf ELSE IF sfx # "" THEN "pm" \o sfx ELSE Default
NW(f) == IF f \in DOMAIN nf THEN nf[f] ELSE 0
Trans == ops[2].trans
Run(m, b, sfx, k, w, tn, tp, s, p0, mv, stop, how, rs) ==
    [op |-> "run", mode |-> m, backend |-> b, suffix |-> sfx, n |-> k, nw |-> w, tune |-> tn, temp |-> tp, seed |-> s, p0 |-> p0, move |-> mv, stop |-> stop, how |-> how, rs |-> rs]
Walkers == {6, 7, 9}
Nruns == Cardinality({i \in DOMAIN ops : ops[i].op = "run"})
One(S) == {RandomElement(S)}
DoRun ==
    /\ Nruns < 5
    /\ \E m \in One({"fresh", "resume", "append"}), b \in One({"default", "default2", "none", "A.h5", "B.h5"}), sx \in One({"", "0", "_x.h5"}), k \in One({3, 5, 7, 11}),
          tn \in One({-1, 1, 2, 4, 30}), tp \in One({"1.0", "1", "0.4"}), s \in One({-1, 0, 5}), p0 \in One({"given", "none"}), mv \in One({"tiny", "tiny2", "dime", "stretch"}),
          stop \in One({-1, -2, 0, 1, 3}), how \in One({"exc", "kill"}), w \in One(Walkers), rs \in One(1..2) :
       LET b1 == IF b = "default2" THEN "default" ELSE b
           sfx == IF sx = "_x.h5" /\ b1 = "default" /\ bf = "" THEN sx ELSE ""
           f == Where(b1, sfx)
           mv1 == IF mv = "tiny2" THEN "tiny" ELSE mv
           m1 == IF f = "mem" \/ NW(f) = 0 THEN "fresh" ELSE m
           st1 == IF stop < k /\ mv1 = "tiny" /\ f # "mem" /\ (IF m1 = "fresh" THEN stop > 0 ELSE stop >= 0) THEN stop ELSE -1
           w1 == IF m1 = "fresh" THEN w ELSE NW(f)
           tn1 == IF tn < 0 /\ k < 5 THEN 2 ELSE tn
           p1 == IF Trans /\ m1 # "resume" THEN "given" ELSE p0
       IN  /\ ops' = Append(ops, Run(m1, b1, sfx, k, w1, tn1, IF tp = "1" THEN "1.0" ELSE tp, s, p1, mv1, st1, how, rs))
           /\ nf' = IF f = "mem" THEN nf ELSE [x \in DOMAIN nf \cup {f} |-> IF x = f THEN w1 ELSE nf[x]]
           /\ bf' = IF b1 \in {"none", "default"} \/ (st1 >= 0 /\ how = "kill") THEN bf ELSE b1
           /\ hastune' = (hastune \/ ~(st1 >= 0 /\ how = "kill"))
Again ==    \* an earlier run once more: equal seeds, equal chains
    /\ Nruns < 5
    /\ \E i \in DOMAIN ops : ops[i].op = "run" /\ ops[i].mode = "fresh" /\ ops[i].backend # "default" /\ ops[i].stop < 0 /\ ops[i].p0 = "given"
         /\ \E b \in {ops[i].backend, "none"} :
            /\ ops' = Append(ops, [ops[i] EXCEPT !.backend = b])
            /\ nf' = IF b = "none" THEN nf ELSE [x \in DOMAIN nf \cup {b} |-> IF x = b THEN ops[i].nw ELSE nf[x]]
            /\ bf' = IF b = "none" THEN bf ELSE b
            /\ hastune' = TRUE
Q(q) == [op |-> "query", q |-> q]
Query ==
    /\ hastune
    /\ \/ \E fl \in BOOLEAN : ops' = Append(ops, Q("chain") @@ [flat |-> fl])
       \/ \E f \in DOMAIN nf, fl \in BOOLEAN : ops' = Append(ops, Q("chain") @@ [flat |-> fl, file |-> f])
       \/ \E q \in {"acc", "tune", "info", "summary", "csv", "mdd"} : ops' = Append(ops, Q(q))
       \/ \E wh \in {"mode", "best", "post_mean"} : ops' = Append(ops, Q("par") @@ [which |-> wh])
       \/ \E s \in {0, 3}, k \in {1, 5} : ops' = Append(ops, Q("par") @@ [which |-> "posterior", seed |-> s, n |-> k])
       \/ \E k \in {1, 9, 40} : ops' = Append(ops, Q("sample") @@ [size |-> k])
    /\ UNCHANGED <<nf, bf, hastune>>
Look == ops[Len(ops)].op # "query" /\ Query
Other ==
    \/ \E q \in {<<"phi_pi", "2.0">>, <<"h", "0.4">>, <<"ybar", "0.1">>} : ops' = Append(ops, [op |-> "set", name |-> q[1], value |-> q[2]]) /\ UNCHANGED <<nf, bf, hastune>>
    \/ ops' = Append(ops, [op |-> "reopen", trans |-> Trans, seed |-> ops[2].seed]) /\ bf' = "" /\ hastune' = FALSE /\ UNCHANGED nf
    \/ hastune /\ (\E z \in BOOLEAN : ops' = Append(ops, [op |-> "reload", lazy |-> z])) /\ UNCHANGED <<nf, bf, hastune>>
Init0 == prior = <<>> /\ ops = <<>> /\ ph = "n" /\ n = 0 /\ nf = <<>> /\ bf = "" /\ hastune = FALSE /\ np = 0
Next0 ==
    \/ /\ ph = "n" /\ \E k \in 2..3 : n' = k
       /\ ph' = "prior" /\ UNCHANGED <<prior, ops, nf, bf, hastune, np>>
    \/ /\ ph = "prior" /\ Len(prior) < n
       /\ \E p \in Pars \ Names0 : \E c \in Cand(p), fm \in {3, 6} : prior' = Append(prior, [name |-> p, dist |-> c[1], a |-> c[2], b |-> c[3], form |-> fm])
       /\ UNCHANGED <<ops, ph, n, nf, bf, hastune, np>>
    \/ /\ ph = "prior" /\ Len(prior) = n
       /\ \E tr \in {FALSE, FALSE, TRUE}, s \in {0, 5} : ops' = <<[op |-> "read", prior |-> prior], [op |-> "prep", trans |-> tr, seed |-> s]>>
       /\ ph' = "ops" /\ UNCHANGED <<prior, n, nf, bf, hastune, np>>
    \* phases, so that kinds of operations are equally likely
    \/ /\ ph = "ops" /\ Len(ops) < 13 /\ \E q \in {"run", "run2", "again", "look", "look2", "look3", "other"} : ph' = q
       /\ UNCHANGED <<prior, ops, n, nf, bf, hastune, np>>
    \/ /\ ph \in {"run", "run2"} /\ DoRun /\ ph' = "ops" /\ UNCHANGED <<prior, n, np>>
    \/ /\ ph = "again" /\ Again /\ ph' = "ops" /\ UNCHANGED <<prior, n, np>>
    \/ /\ ph \in {"look", "look2", "look3"} /\ Query /\ ph' = "ops" /\ UNCHANGED <<prior, n, np>>
    \/ /\ ph = "other" /\ Other /\ ph' = "ops" /\ UNCHANGED <<prior, n, np>>
    \/ /\ ph \in {"run", "run2", "again", "look", "look2", "look3", "other"} /\ np < 12 /\ ph' = "ops" /\ np' = np + 1 /\ UNCHANGED <<prior, ops, n, nf, bf, hastune>>
    \/ /\ ph = "ops" /\ Len(ops) >= 13 /\ Nruns > 0 /\ PrintT("@@" \o ToJson([ops |-> ops])) /\ ph' = "end" /\ UNCHANGED <<prior, ops, n, nf, bf, hastune, np>>
===============================================================================
