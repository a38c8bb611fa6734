--------------------------------- MODULE Pool ---------------------------------
(***************************************************************************)
(* One history of operations, carried out by several objects that differ    *)
(* only in their worker processes (ev.runs[1]: serially).  What an          *)
(* operation gives, and the model it leaves (digest), is a function of the  *)
(* history, not of the workers: refinement of PoolDesign's Serial and Kept. *)
(* Results are recorded flat: numbers, and everything else.                 *)
(***************************************************************************)
EXTENDS Reals, Integers, Sequences, TLC
LStart(trace) == 0
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RClose(a[i], b[i], "1e-7")
LJudge(st, ev, trace) ==
    [st |-> st,
     bad |-> UNION {LET a == ev.runs[1]  b == ev.runs[i]  who == <<ev.op.op, "workers", b.w>> IN
                    IF a.ok # b.ok THEN {<<"C23", IF b.ok THEN "succeeds only with workers" ELSE "fails only with workers", who, IF b.ok THEN <<a.exc, a.msg>> ELSE <<b.exc, b.msg>> >>}
                    ELSE (IF ~a.ok \/ (a.txt = b.txt /\ Same(a.num, b.num)) THEN {} ELSE {<<"C23", "result differs", who>>})
                         \cup (IF a.dtxt = b.dtxt /\ Same(a.dnum, b.dnum) THEN {} ELSE {<<"C23", "model differs afterwards", who>>})
                    : i \in 2..Len(ev.runs)}]
===============================================================================
