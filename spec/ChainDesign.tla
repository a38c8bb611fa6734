------------------------------ MODULE ChainDesign ------------------------------
(***************************************************************************)
(* Design of stored sampling runs.  A file holds cells (allocated ahead)   *)
(* and a counter of completed steps; a step writes its cell, then the      *)
(* counter.  A run is fresh (reset), resumes (from the last stored state)  *)
(* or appends (new walkers); it can die between any two writes.            *)
(*                                                                         *)
(* Counted: readers go by the counter, not by what is allocated.           *)
(* Reset: a fresh run starts from an empty file.                           *)
(* hist is the meaning: the steps that were completed since the last fresh *)
(* run, each <<run, number>>.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxRuns, Steps, Counted, Reset
VARIABLES cells, cnt, run, pc, start, hist, runs
vars == <<cells, cnt, run, pc, start, hist, runs>>
Hole == <<0, 0>>
Init == cells = <<>> /\ cnt = 0 /\ run = [id |-> 0, todo |-> 0, done |-> 0] /\ pc = "idle" /\ start = <<>> /\ hist = <<>> /\ runs = 0
Visible == IF Counted THEN SubSeq(cells, 1, cnt) ELSE cells
Begin(mode) ==
    /\ pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
    /\ mode = "resume" => Visible # <<>>
    /\ \E k \in 1..Steps : run' = [id |-> runs + 1, todo |-> k, done |-> 0]
    /\ IF mode = "fresh" THEN /\ hist' = <<>> /\ IF Reset THEN cells' = <<>> /\ cnt' = 0 ELSE UNCHANGED <<cells, cnt>>
       ELSE UNCHANGED <<cells, cnt, hist>>
    \* the state the run continues from
    /\ start' = IF mode = "resume" THEN Visible[Len(Visible)] ELSE Hole
    /\ pc' = "grow"
    /\ (mode = "resume" => start' = hist[Len(hist)])
Grow == /\ pc = "grow"
        /\ cells' = [j \in 1..(cnt + run.todo) |-> IF j <= Len(cells) THEN cells[j] ELSE Hole]
        /\ pc' = "cell" /\ UNCHANGED <<cnt, run, start, hist, runs>>
WriteCell == /\ pc = "cell" /\ cells' = [cells EXCEPT ![cnt + 1] = <<run.id, run.done + 1>>] /\ pc' = "count" /\ UNCHANGED <<cnt, run, start, hist, runs>>
WriteCount == /\ pc = "count" /\ cnt' = cnt + 1 /\ hist' = Append(hist, <<run.id, run.done + 1>>)
              /\ run' = [run EXCEPT !.done = @ + 1] /\ pc' = (IF run.done + 1 = run.todo THEN "idle" ELSE "cell") /\ UNCHANGED <<cells, start, runs>>
Die == pc # "idle" /\ pc' = "idle" /\ UNCHANGED <<cells, cnt, run, start, hist, runs>>
Next == \E mode \in {"fresh", "resume", "append"} : Begin(mode)
Next2 == Next \/ Grow \/ WriteCell \/ WriteCount \/ Die
Spec == Init /\ [][Next2]_vars
Faithful == pc = "idle" => Visible = hist
===============================================================================
