------------------------------- MODULE DataLoad ------------------------------
(***************************************************************************)
(* Loading data into a model.  A frame has rows 1..n with labels in an     *)
(* increasing index, and named columns.  The label of row i is a number    *)
(* (months for calendar indices).  A boundary is a period [lo, hi] of      *)
(* labels: the range starts at lo of the first and ends with hi of the     *)
(* second.  State: the data in place (or nothing).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

DObs == <<"GDP", "Infl", "FFR">>
DRange(s) == {s[i] : i \in DOMAIN s}
DHas(ev, f) == f \in DOMAIN ev
\* value of a cell
Cell(ev, i, c) == (IF c \in {"GDP", "Infl", "FFR"} THEN (CHOOSE j \in 1..3 : DObs[j] = c) ELSE 7) * 1000 + ev.salt * 100 + i
Label(ev, i) == ev.t0 + (i - 1) * ev.step
InRange(ev, i) ==
    /\ DHas(ev, "from") => Label(ev, i) >= ev.from[1]
    /\ DHas(ev, "upto") => Label(ev, i) <= ev.upto[2]
RECURSIVE Rows(_, _)
Rows(ev, i) == IF i > ev.n THEN <<>> ELSE (IF InRange(ev, i) THEN <<i>> ELSE <<>>) \o Rows(ev, i + 1)
Missing(ev) == {c \in DRange(DObs) : c \notin DRange(ev.cols)}
NanIn(ev) == {q \in DRange(ev.nans) : q[2] \in DRange(DObs) /\ q[2] \in DRange(ev.cols) /\ InRange(ev, q[1])}
Refused(ev) == ev.form # "frame" \/ Missing(ev) # {} \/ NanIn(ev) # {}
\* the data that loading prescribes: rows of the frame and cells
Loaded(ev) == LET r == Rows(ev, 1) IN [rows |-> r, vals |-> [i \in 1..Len(r) |-> [j \in 1..3 |-> Cell(ev, r[i], DObs[j])]]]
NoData == [rows |-> <<>>, vals |-> <<>>]

Shown(ev) == [rows |-> ev.now.rows, vals |-> ev.now.vals]
\* st: [data, has].  ev.now: the data of the model after the operation; ev.ret: what was returned
DJudge(st, ev, trace) ==
    IF ev.op = "load"
    THEN LET ref == Refused(ev)
             nxt == IF ref THEN st ELSE [data |-> Loaded(ev), has |-> TRUE]
         IN  [st |-> nxt,
              bad |-> (IF ref /\ ev.ok THEN {<<"C16", "accepted", Missing(ev), NanIn(ev), ev.form>>} ELSE {})
                      \cup (IF ~ref /\ ~ev.ok THEN {<<"C16", "refused", ev.exc, ev.msg>>} ELSE {})
                      \cup (IF ~ref /\ ev.ok THEN
                              (IF ev.ret.vals = nxt.data.vals /\ ev.ret.rows = nxt.data.rows THEN {} ELSE {<<"C16", "returned", ev.ret.rows, nxt.data.rows>>})
                              \cup (IF ev.ret.cols = DObs THEN {} ELSE {<<"C16", "columns", ev.ret.cols>>})
                              \cup (IF ev.now.idx THEN {} ELSE {<<"C16", "index changed">>})
                            ELSE {})
                      \cup (IF ev.same THEN {} ELSE {<<"C16", "caller's frame changed">>})
                      \cup (IF ev.now.has = nxt.has /\ (nxt.has => Shown(ev) = nxt.data) THEN {}
                            ELSE {<<"C16", IF ref THEN "data in place were lost" ELSE "data in place", ev.now.rows, nxt.data.rows>>})]
    ELSE \* the caller edits the frames he passed; a copy is stored and loaded
         [st |-> st,
          bad |-> (IF ev.now.has = st.has /\ (st.has => Shown(ev) = st.data) THEN {} ELSE {<<"C16", "data changed by", ev.op, ev.now.vals, st.data.vals>>})
                  \cup (IF ev.op = "store" /\ st.has /\ (~ev.ok \/ ev.back # st.data.vals) THEN {<<"C16", "stored data", st.data.vals>>} ELSE {})]
DStart == [data |-> NoData, has |-> FALSE]
===============================================================================
