-------------------------------- MODULE Faults --------------------------------
(***************************************************************************)
(* Which model files are models.  A file is a model record (LinearModel)   *)
(* whose parts need not fit together: cons is the sequence of constraints  *)
(* as written, coefficients may be names of parameters, pars are the names *)
(* that are defined.  Faulty files are rejected before anything can be     *)
(* simulated; whatever was rejected, files that are fine are read as if    *)
(* nothing else had ever been read.                                        *)
(***************************************************************************)
EXTENDS Dict

IsName(c) == c \in {"foo", "g1", "g2"}
Syms(F) == Range(F.vars) \cup Range(F.shocks)
TermsOK(F, ts) == \A i \in DOMAIN ts : ts[i][2] \in Syms(F) /\ (IsName(ts[i][1]) => ts[i][1] \in Range(F.pars))
Uses(F, s) == \E q \in DOMAIN F.eqs : \E i \in DOMAIN F.eqs[q] : F.eqs[q][i][2] = s
Distinct(s) == Cardinality(Range(s)) = Len(s)
\* the faults of a file
FaultsOf(F) ==
    (IF F.blank THEN {"blank in a variable name"} ELSE {})
    \cup (IF ~Distinct(F.vars) THEN {"variable declared twice"} ELSE {})
    \cup (IF Len(F.eqs) + 1 # Len(F.vars) THEN {"number of equations"} ELSE {})
    \cup (IF \A q \in DOMAIN F.eqs : TermsOK(F, F.eqs[q]) THEN {} ELSE {"undeclared symbol"})
    \cup (IF \A c \in DOMAIN F.cons : TermsOK(F, F.cons[c].terms) THEN {} ELSE {"undeclared symbol in the constraint"})
    \cup (IF \A o \in DOMAIN F.obs : TermsOK(F, F.obs[o].terms) THEN {} ELSE {"undeclared symbol in an observation equation"})
    \cup (IF \A s \in DOMAIN F.cov : IsName(F.cov[s]) => F.cov[s] \in Range(F.pars) THEN {} ELSE {"undefined parameter in the covariances"})
    \cup (IF Len(F.cons) = 1 THEN {} ELSE {"number of constraints"})
    \cup (IF \A c \in DOMAIN F.cons : F.cons[c].form = "eq" /\ F.cons[c].lhs \in Range(F.vars) THEN {} ELSE {"form of the constraint"})
    \cup (IF \E c \in DOMAIN F.cons : \E i \in DOMAIN F.cons[c].terms : F.cons[c].terms[i][3] > 0 THEN {"lead in the constraint"} ELSE {})
    \cup (IF \A v \in Range(F.vars) : Uses(F, v) THEN {} ELSE {"variable that appears nowhere"})
    \cup (IF \A s \in Range(F.shocks) : Uses(F, s) THEN {} ELSE {"shock that appears nowhere"})
    \cup (IF \E o \in DOMAIN F.obs : \E i \in DOMAIN F.obs[o].terms : F.obs[o].terms[i][3] < 0 THEN {"lag in an observation equation"} ELSE {})
    \cup (IF \E o \in DOMAIN F.obs : \E i \in DOMAIN F.obs[o].terms : F.obs[o].terms[i][3] > 0 THEN {"lead in an observation equation"} ELSE {})
    \cup (IF \E o \in DOMAIN F.obs : \E i \in DOMAIN F.obs[o].terms : F.obs[o].terms[i][2] \in Range(F.shocks) THEN {"shock in an observation equation"} ELSE {})
    \cup (IF RGt(F.xbar, "0.0") THEN {"positive bound"} ELSE {})

DigO(o, dg) == IF o.tab = <<>> THEN {} ELSE DigJ(o, dg)     \* numerically unsound laws are not judged
FStart(trace) == [objs |-> <<>>]
FJudge(st, ev, trace) ==
    LET flt == FaultsOf(ev.F) IN
    IF flt # {}
    THEN [st |-> st, bad |-> (IF ev.stage = "none" THEN {<<"C18", "accepted", flt>>} ELSE {})
                             \cup UNION {{<<"C18", "other model", j, c>> : c \in DigO(st.objs[j], ev.digs[j])} : j \in DOMAIN st.objs}]
    ELSE LET o == TLCEval(Fresh(ev.F, -1, -1))
             un == o.tab # <<>>
             objs == Append(st.objs, o)
         IN  IF ~un THEN [st |-> IF ev.stage = "none" THEN [objs |-> objs] ELSE st, bad |-> {}]
             ELSE IF ev.stage # "none" THEN [st |-> st, bad |-> {<<"C18", "correct file rejected", ev.stage, ev.exc, ev.msg>>}]
             ELSE [st |-> [objs |-> objs], bad |-> UNION {{<<"C18", "model", j, c>> : c \in DigO(objs[j], ev.digs[j])} : j \in DOMAIN objs}]
===============================================================================
