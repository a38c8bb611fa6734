--------------------------------- MODULE Dict ---------------------------------
(***************************************************************************)
(* Models given as dictionaries of system matrices.  The user holds        *)
(* dictionaries, each denoting a model (see LinearModel); "gen" makes an   *)
(* object out of a dictionary with a horizon.  An object behaves as the    *)
(* model its dictionary denoted at that time, whatever is done with the    *)
(* dictionary, with other dictionaries or with equal ones later on.  The   *)
(* same model written as a file is observed next to it.                    *)
(***************************************************************************)
EXTENDS Sim

DHas(r, k) == k \in DOMAIN r
\* objs: sequence of specification states (Fresh); dicts: slot -> model
DStart(trace) == [objs |-> <<>>, dicts |-> <<>>]

ObsVal(m, x) == [j \in 1..Len(m.obs) |->
                    RAdd(m.obs[j].const, VSum([i \in 1..Len(m.obs[j].terms) |-> RMul(m.obs[j].terms[i][1], x[m.obs[j].terms[i][2]])]))]

RECURSIVE StepsJ(_, _, _)
StepsJ(st, steps, n) ==
    IF n > Len(steps) THEN {}
    ELSE JudgeStep(st, steps[n])
         \cup (IF Len(st.m.obs) = 0 THEN {}
               ELSE IF ~VClose(steps[n].obs, ObsVal(st.m, steps[n].x), Tol) THEN {<<"", "observables", n>>} ELSE {})
         \cup StepsJ(Advance(st, steps[n].x, FullShock(st.m, steps[n].e)), steps, n + 1)

\* a digest: steps from the steady state and an impulse response
DigJ(o, dg) ==
    IF ~dg.ok THEN {<<"unusable", dg.exc, dg.msg>>}
    ELSE (IF dg.lks = <<o.L, o.K>> THEN {} ELSE {<<"horizon", dg.lks, o.L, o.K>>})
         \cup StepsJ(o, dg.steps, 1) \cup JudgeIrfs(o, dg.irf)
         \cup (IF Len(o.m.obs) = 0 THEN {} ELSE IF dg.onames = [j \in 1..Len(o.m.obs) |-> o.m.obs[j].name] THEN {} ELSE {<<"names of observables">>})
\* the file next to it
Twin(o, a, b) ==
    IF ~a.ok \/ ~b.ok THEN {}
    ELSE {<<"not as the file", n>> : n \in {n \in 1..Len(a.steps) :
              \/ a.steps[n].l = b.steps[n].l /\ a.steps[n].k = b.steps[n].k /\ n = 1 /\ ~CloseRec(o.m, a.steps[n].x, b.steps[n].x)
              \/ a.steps[n].l = b.steps[n].l /\ a.steps[n].k = b.steps[n].k /\ n = 1 /\ a.steps[n].flag # b.steps[n].flag}}

DJudge(st, ev, trace) ==
    CASE ev.op \in {"dict", "edit"} ->
            [st |-> [st EXCEPT !.dicts = [d \in DOMAIN @ \cup {ev.d} |-> IF d = ev.d THEN ev.m ELSE @[d]]],
             bad |-> IF ev.ok THEN {} ELSE {<<"C20", "harness", ev.exc, ev.msg>>}]
      [] ev.op = "gen" ->
            LET m == st.dicts[ev.d]
                o == TLCEval(Fresh(m, ev.lmax, ev.kmax))
                objs == Append(st.objs, o)
                un == o.tab # <<>>      \* a unique solution, and numerically sound laws
            IN  IF ~ev.ok
                THEN [st |-> st, bad |-> IF un THEN {<<"C20", "not processed", ev.exc, ev.msg>>} ELSE {}]
                ELSE [st |-> [st EXCEPT !.objs = objs],
                      bad |-> UNION {{<<"C20", j, c>> : c \in TLCEval(IF objs[j].tab # <<>> THEN DigJ(objs[j], ev.digs[j]) ELSE {})} : j \in DOMAIN objs}
                              \cup (IF un THEN {<<"C20", Len(objs), c>> : c \in Twin(o, ev.digs[Len(objs)], ev.twin)} ELSE {})
                              \cup (IF ev.same THEN {} ELSE {<<"C20", "the matrices of the dictionary were changed">>})]
===============================================================================
