------------------------------- MODULE TraceRun -------------------------------
(***************************************************************************)
(* Validation of recorded traces.  A trace file is a JSON sequence of      *)
(* traces; a trace has a sequence ev of events.  Start(trace) is the       *)
(* initial specification state, Judge(st, ev, trace) gives the next        *)
(* specification state and the set of violated clauses (each starts with   *)
(* the property it belongs to).  Verdicts are total: every event of every  *)
(* trace is judged, violated clauses are printed and validation goes on.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Start(_), Judge(_, _, _)
VARIABLES tr, i, st

Traces == TLCEval(JsonDeserialize(IOEnv.TRACE))
View == <<tr, i>>
Init == tr \in 1..Len(Traces) /\ i = 0 /\ st = Start(Traces[tr])
Next ==
    /\ i < Len(Traces[tr].ev)
    /\ LET r == TLCEval(Judge(st, Traces[tr].ev[i + 1], Traces[tr])) IN
       /\ st' = r.st
       /\ (r.bad # {}) => PrintT("@@" \o ToJson([tr |-> tr, i |-> i + 1, bad |-> r.bad]))
    /\ i' = i + 1
    /\ (i' = Len(Traces[tr].ev)) => PrintT("@@" \o ToJson([done |-> tr]))
    /\ UNCHANGED tr
===============================================================================
