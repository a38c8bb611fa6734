------------------------------ MODULE PoolDesign ------------------------------
(***************************************************************************)
(* Design of the batch operations.  The model is in some state (m); a batch *)
(* call hands tasks to workers.  A worker is a copy of the process made     *)
(* when the pool was last renewed: it carries the model as it was then, and *)
(* what earlier tasks left in it.  Results come back in the order of the    *)
(* tasks (imap).  Renew: the pool is renewed by each batch call.  Copies:   *)
(* a task works on the copy of the model that came with the call, not on    *)
(* the worker's own.                                                        *)
(*                                                                         *)
(* Serial: the results of a call are those of a serial run; Kept: a call    *)
(* leaves the model as it was.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, Tasks, Calls, Renew, Copies
VARIABLES m, wk, pend, run, out, exp, n, kept
vars == <<m, wk, pend, run, out, exp, n, kept>>
\* what a task with argument a gives in a model with calibrated part c
Val(c, a) == 100 * c + a
Idle == 0
Init == /\ m = [c |-> 1, p |-> 0] /\ wk = [w \in 1..W |-> [c |-> 1, p |-> 0]]
        /\ pend = <<>> /\ run = [w \in 1..W |-> Idle] /\ out = <<>> /\ exp = <<>> /\ n = 0 /\ kept = m
Free == exp = <<>>
\* the user changes a calibrated parameter between calls
Set == Free /\ n < Calls /\ m.c < 3 /\ m' = [m EXCEPT !.c = @ + 1] /\ kept' = m' /\ UNCHANGED <<wk, pend, run, out, exp, n>>
Call == /\ Free /\ n < Calls
        /\ pend' = [i \in 1..Tasks |-> i]
        /\ exp' = [i \in 1..Tasks |-> Val(m.c, i)]
        /\ out' = [i \in 1..Tasks |-> 0]
        /\ wk' = IF Renew THEN [w \in 1..W |-> m] ELSE wk
        /\ n' = n + 1 /\ kept' = m /\ UNCHANGED <<m, run>>
Take == \E w \in 1..W : /\ run[w] = Idle /\ pend # <<>>
                        /\ run' = [run EXCEPT ![w] = pend[1]] /\ pend' = Tail(pend)
                        /\ UNCHANGED <<m, wk, out, exp, n, kept>>
Work == \E w \in 1..W : /\ run[w] # Idle
                        /\ LET c == IF Copies THEN m.c ELSE wk[w].c IN
                           out' = [out EXCEPT ![run[w]] = Val(c, run[w])]
                        /\ wk' = [wk EXCEPT ![w].p = run[w]]
                        /\ run' = [run EXCEPT ![w] = Idle]
                        /\ UNCHANGED <<m, pend, exp, n, kept>>
Done == /\ ~Free /\ pend = <<>> /\ \A w \in 1..W : run[w] = Idle
        /\ exp' = <<>> /\ out' = <<>> /\ UNCHANGED <<m, wk, pend, run, n, kept>>
Next == Set \/ Call \/ Take \/ Work \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Work \/ Done)
Serial == (~Free /\ pend = <<>> /\ \A w \in 1..W : run[w] = Idle) => out = exp
Kept == m = kept
Returns == (exp # <<>>) ~> (exp = <<>>)
===============================================================================
