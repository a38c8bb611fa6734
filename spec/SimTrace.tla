------------------------------- MODULE SimTrace -------------------------------
(* Validation of recorded simulation traces against Sim. *)
EXTENDS Sim, Json, IOUtils

Traces == TLCEval(JsonDeserialize(IOEnv.TRACE))

VARIABLES tr, i, st, bad
vars == <<tr, i, st, bad>>

View == <<tr, i>>
None == [none |-> TRUE]
Init == /\ tr \in 1..Len(Traces) /\ i = 0 /\ st = None /\ bad = {}

Apply(ev, m) ==
    CASE ev.op = "read" ->
            [st |-> st, bad |-> IF ev.ok THEN {} ELSE {<<"C01", "model file rejected", ev.exc, ev.msg>>}]
      [] ev.op = "solve" ->
            LET n == TLCEval(Fresh(m, ev.lmax, ev.kmax)) IN
            [st |-> IF ev.ok THEN n ELSE None,
             bad |-> IF n.sol.kind = "unique" /\ ~ev.ok THEN {<<"C01", "no solution found", ev.exc, ev.msg>>, <<"C24", "not accepted">>}
                     ELSE IF n.sol.kind \in {"many", "none"} /\ ev.ok THEN {<<"C24", "accepted without unique stable solution", n.sol.kind>>}
                     ELSE {}]
      [] ~ev.ok /\ st # None /\ "setk" \in DOMAIN ev /\ ~InTable(st, ev.setk[1], ev.setk[2]) ->
            [st |-> st, bad |-> IF ev.exc = "IndexError" THEN {} ELSE {<<"C04", "set_k beyond the horizon", ev.exc>>}]
      [] ~ev.ok ->
            [st |-> st, bad |-> {<<p, "exception", ev.exc, ev.msg>> : p \in {"C01", "C02", "C03", "C04"}}]
      [] ev.op \in {"reset", "again"} -> [st |-> IF st = None THEN st ELSE [st EXCEPT !.hist = <<>>, !.eh = <<>>], bad |-> {}]
      [] st = None -> [st |-> st, bad |-> {}]
      [] st.tab = <<>> -> [st |-> st, bad |-> {}]
      [] ev.op = "step" ->
            [st |-> Advance(st, ev.x, FullShock(m, ev.e)), bad |-> JudgeStep(st, ev)]
      [] ev.op = "edge" -> [st |-> st, bad |-> JudgeEdge(st, ev)]
      [] ev.op = "irfs" ->
            [st |-> st, bad |-> JudgeIrfs(IF "state" \in DOMAIN ev /\ ev.state THEN st ELSE [st EXCEPT !.hist = <<>>, !.eh = <<>>], ev)]

Next ==
    /\ i < Len(Traces[tr].ev)
    /\ LET r == TLCEval(Apply(Traces[tr].ev[i + 1], Traces[tr].model)) IN
       /\ st' = r.st
       /\ bad' = r.bad
       /\ (r.bad # {}) => PrintT("@@" \o ToJson([tr |-> tr, i |-> i + 1, bad |-> r.bad]))
    /\ i' = i + 1
    /\ (i' = Len(Traces[tr].ev)) => PrintT("@@" \o ToJson([done |-> tr]))
    /\ UNCHANGED tr
===============================================================================
