------------------------------- MODULE SetDesign -------------------------------
(***************************************************************************)
(* Design of parameter settings.  A model consists of parts that are       *)
(* written one after the other when parameters are set; writing any of     *)
(* them can fail (no solution, a bad value, an error in a user function).  *)
(* Settings happen alone, or inside an operation over a list of points     *)
(* (batches, extraction, sampling), which puts back what was there, or     *)
(* inside an evaluation of the posterior, which moves the model and        *)
(* answers minus infinity where a setting fails.                           *)
(*                                                                         *)
(* Restore: a failed setting puts the parts back that it found.            *)
(* Keep: operations over points put the parts back that they found, also   *)
(* if they end with an error.  FilterPart: the filter counts as a part in  *)
(* both.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Values, MaxOps, Restore, Keep, FilterPart
VARIABLES m, hasf, op, stack, want, n
vars == <<m, hasf, op, stack, want, n>>
Parts == <<"par", "bound", "law", "obs", "filter">>
Names == {Parts[j] : j \in 1..Len(Parts)}
All(v) == [q \in Names |-> v]
Idle == [k |-> "idle"]
Free == op.k = "idle"
\* what is put back
Back(old) == [q \in Names |-> IF q # "filter" \/ FilterPart THEN old[q] ELSE m[q]]
Init == m = All(0) /\ hasf = FALSE /\ op = Idle /\ stack = <<>> /\ want = 0 /\ n = 0
Prep == Free /\ n < MaxOps /\ ~hasf /\ hasf' = TRUE /\ m' = [m EXCEPT !.filter = m.par] /\ n' = n + 1 /\ UNCHANGED <<op, stack, want>>
\* a setting by the user
Set == /\ Free /\ n < MaxOps /\ n' = n + 1
       /\ \E v \in Values : op' = [k |-> "set", v |-> v, at |-> 1, old |-> m, todo |-> <<>>, how |-> "user"]
       /\ UNCHANGED <<m, hasf, stack, want>>
\* an operation over points, and an evaluation of the posterior
Batch == /\ Free /\ n < MaxOps /\ n' = n + 1
         /\ \E v, w \in Values : op' = [k |-> "set", v |-> v, at |-> 1, old |-> m, todo |-> <<w>>, how |-> "batch"]
         /\ stack' = <<m>> /\ UNCHANGED <<m, hasf, want>>
Post == /\ Free /\ hasf /\ n < MaxOps /\ n' = n + 1
        /\ \E v \in Values : op' = [k |-> "set", v |-> v, at |-> 1, old |-> m, todo |-> <<>>, how |-> "post"]
        /\ UNCHANGED <<m, hasf, stack, want>>
WritePart == /\ op.k = "set" /\ op.at <= Len(Parts)
             /\ m' = IF Parts[op.at] = "filter" /\ ~hasf THEN m ELSE [m EXCEPT ![Parts[op.at]] = op.v]
             /\ op' = [op EXCEPT !.at = @ + 1] /\ UNCHANGED <<hasf, stack, want, n>>
Done == /\ op.k = "set" /\ op.at = Len(Parts) + 1
        /\ CASE op.todo # <<>> -> op' = [op EXCEPT !.v = op.todo[1], !.todo = <<>>, !.at = 1, !.old = m] /\ UNCHANGED <<m, stack, want>>
             [] op.todo = <<>> /\ op.how = "batch" -> op' = Idle /\ m' = (IF Keep THEN Back(stack[1]) ELSE m) /\ stack' = <<>> /\ UNCHANGED want
             [] OTHER -> op' = Idle /\ want' = op.v /\ UNCHANGED <<m, stack>>
        /\ UNCHANGED <<hasf, n>>
\* the filter is written last and does not fail
Fail == /\ op.k = "set" /\ op.at < Len(Parts)
        /\ CASE op.how = "batch" /\ op.todo # <<>> ->       \* the member is marked, the others go on
                    /\ m' = (IF Restore THEN Back(op.old) ELSE m)
                    /\ op' = [op EXCEPT !.v = op.todo[1], !.todo = <<>>, !.at = 1, !.old = m'] /\ UNCHANGED stack
             [] op.how = "batch" /\ op.todo = <<>> -> op' = Idle /\ m' = (IF Keep THEN Back(stack[1]) ELSE IF Restore THEN Back(op.old) ELSE m) /\ stack' = <<>>
             [] OTHER -> op' = Idle /\ m' = (IF Restore THEN Back(op.old) ELSE m) /\ UNCHANGED stack
        /\ UNCHANGED <<hasf, want, n>>
Next == Prep \/ Set \/ Batch \/ Post \/ WritePart \/ Done \/ Fail
Spec == Init /\ [][Next]_vars
\* between operations all parts belong to the parameters, and these are the last ones that were set
Parts1 == Free => \A q \in Names : (q = "filter" /\ ~hasf) \/ m[q] = m.par
Wanted == Free => m.par = want
===============================================================================
