------------------------------- MODULE SampGen -------------------------------
(* Prior declarations, and histories of sampling from them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils
VARIABLES prior, ops, ph, n
Cand(p) == CASE p = "phi_pi" -> {<<"normal", "1.7", "0.3">>, <<"normal", "1.15", "0.3">>, <<"uniform", "0.6", "2.4">>, <<"gamma", "1.3", "0.4">>}
             [] p = "rho_u" -> {<<"beta", "0.7", "0.1">>, <<"beta", "0.5", "0.2">>, <<"uniform", "0.1", "0.95">>, <<"normal", "0.9", "0.1">>}
             [] p = "s_u" -> {<<"inv_gamma_dynare", "0.3", "2.0">>, <<"inv_gamma", "0.4", "0.3">>, <<"gamma", "0.5", "0.2">>, <<"uniform", "0.1", "1.0">>}
             [] p = "th" -> {<<"uniform", "0.4", "0.9">>, <<"beta", "0.7", "0.1">>}
             [] p = "sg" -> {<<"gamma", "0.9", "0.2">>, <<"normal", "0.9", "0.1">>}
             [] p = "s_z" -> {<<"inv_gamma", "0.4", "0.3">>, <<"gamma", "0.3", "0.1">>, <<"uniform", "0.1", "0.6">>}
             [] p = "rho" -> {<<"beta", "0.6", "0.15">>, <<"normal", "0.5", "0.1">>}
Pars == {"phi_pi", "rho_u", "s_u", "th", "sg", "s_z", "rho"}
Names0 == {prior[i].name : i \in DOMAIN prior}
Smp(via, k, s, try, chk) == [op |-> "sample", via |-> via, n |-> k, seed |-> s, try |-> try, chk |-> chk]
Seeds == {0, 1, 11, 4711, 2147483640}
Init0 == prior = <<>> /\ ops = <<>> /\ ph = "n" /\ n = 0
Next0 ==
    \/ /\ ph = "n" /\ \E k \in 2..6 : n' = k
       /\ ph' = "prior" /\ UNCHANGED <<prior, ops>>
    \/ /\ ph = "prior" /\ Len(prior) < n
       /\ \E p \in Pars \ Names0 : \E c \in Cand(p), fm \in {3, 6} : prior' = Append(prior, [name |-> p, dist |-> c[1], a |-> c[2], b |-> c[3], form |-> fm])
       /\ UNCHANGED <<ops, ph, n>>
    \/ /\ ph = "prior" /\ Len(prior) = n /\ (\E fr \in {"no", "no2", "yes"}, s \in Seeds : ops' = IF fr = "yes" THEN <<[op |-> "read", prior |-> prior, fresh |-> TRUE], Smp("get_par", 1, s, TRUE, FALSE)>>
                                                                                        ELSE <<[op |-> "read", prior |-> prior, fresh |-> FALSE]>>) /\ ph' = "ops" /\ UNCHANGED <<prior, n>>
    \/ /\ ph = "ops" /\ Len(ops) < 9
       /\ \/ \E via \in {"sampler", "get_par"}, k \in {1, 4, 7}, s \in Seeds : ops' = Append(ops, Smp(via, k, s, TRUE, FALSE))
          \/ \E s \in {1, 11} : ops' = Append(ops, Smp("sampler", 4, s, TRUE, FALSE))
          \/ ops' = ops \o <<Smp("get_par", 4, 11, TRUE, FALSE)>>
          \/ \E q \in {<<"phi_pi", "2.0">>, <<"rho_r", "0.5">>, <<"h", "0.4">>, <<"h", "0.1">>, <<"ybar", "0.3">>, <<"phi_y", "0.3">>, <<"elb", "0.5">>} : ops' = Append(ops, [op |-> "set", name |-> q[1], value |-> q[2]])
          \* prepared again, with and without transformed parameters: equal seeds, equal samples
          \/ /\ \A i \in DOMAIN ops : ~(ops[i].op = "sample" /\ ops[i].chk)
             /\ \E s \in Seeds, tr \in BOOLEAN : ops' = ops \o <<[op |-> "prep", trans |-> tr], Smp("sampler", 4, s, TRUE, TRUE), [op |-> "prep", trans |-> ~tr], Smp("sampler", 4, s, TRUE, TRUE)>>
          \/ /\ \A i \in DOMAIN ops : ops[i].op # "prep"
             /\ \E tr \in BOOLEAN : ops' = Append(ops, [op |-> "prep", trans |-> tr])
          \/ /\ \E i \in DOMAIN ops : ops[i].op = "prep"
             /\ \E s \in Seeds : ops' = Append(ops, Smp("sampler", 3, s, TRUE, TRUE))
          \/ /\ {i \in DOMAIN ops : ops[i].op = "sample" /\ ops[i].n >= 200} = {}
             /\ \E s \in Seeds : ops' = Append(ops, Smp("sampler", IF \E j \in DOMAIN prior : prior[j].dist = "inv_gamma_dynare" THEN 20 ELSE 240, s, FALSE, FALSE))
       /\ UNCHANGED <<prior, ph, n>>
    \/ /\ ph = "ops" /\ Len(ops) >= 9 /\ PrintT("@@" \o ToJson([ops |-> ops])) /\ ph' = "end" /\ UNCHANGED <<prior, ops, n>>
===============================================================================
