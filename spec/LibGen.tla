------------------------------- MODULE LibGen --------------------------------
(***************************************************************************)
(* Generation of histories of work with model files, several objects and   *)
(* stored objects.  The abstract state (what exists) is that of Library    *)
(* without values; a history is printed when it has its length.            *)
(***************************************************************************)
EXTENDS ParModel, Json, IOUtils
VARIABLES ops, cls, files, hs, npz

Fam == IOEnv.FAM
Files == {"a/m.yaml", "a/n.yaml", "b/m.yaml"}
FDir(f) == IF f = "b/m.yaml" THEN "b" ELSE "a"
Uses(v) == v \in {"D", "E"}
H == 1..Len(hs)
None0 == [v |-> "none", f |-> "none"]
NewH(v, f, dir, nm) == [v |-> v, f |-> f, dir |-> dir, name |-> nm, data |-> FALSE, est |-> FALSE, ready |-> FALSE]
NameOf(v) == CASE v = "F" -> "other" [] v = "G" -> "p m" [] OTHER -> "pm"
CanRead(f) == files[f].v # "none" /\ (Uses(files[f].v) => files[f].f # "none")

MaxH == 4
Vals == {<<"phi_pi", "2.3">>, <<"phi_pi", "1.4">>, <<"sg", "1.3">>, <<"th", "0.55">>, <<"rho_u", "0.6">>, <<"s_u", "0.9">>, <<"pibar", "0.2">>, <<"elb", "0.5">>, <<"bet", "0.985">>}
RECURSIVE Lcg(_, _)
Lcg(s, i) == IF i = 0 THEN s ELSE (Lcg(s, i - 1) * 137 + 71) % 997
Noise(s, i, sc) == RMul(sc, RDiv(RSub(RNum(Lcg(s, i)), "498.0"), "498.0"))
DataSet(T, s, sc) == [t \in 1..T |-> [o \in 1..3 |-> RAdd(<<"0.4", "0.5", "0.55">>[o], Noise(s + 17 * o, 3 * t + o, sc))]]
RMats == { << <<"0.04", "0.0", "0.0">>, <<"0.0", "0.02", "0.0">>, <<"0.0", "0.0", "0.03">> >>,
           << <<"0.09", "0.01", "0.0">>, <<"0.01", "0.05", "0.0">>, <<"0.0", "0.0", "0.02">> >> }
PtSet == {EstVec(Calib), EstVec([Calib EXCEPT !["phi_pi"] = "2.2", !["th"] = "0.6"]), EstVec([Calib EXCEPT !["rho_u"] = "0.65", !["s_z"] = "0.5"])}
NpzNames == {"a/store.npz", "b/kept.npz", "a/pm_meta.npz"}
RdPaths == {"", "res", "out.npz", "deep.v2"}
RdVals == {"r1", "r2", "r3"}
HasData == {h \in H : hs[h].data}
HasReady == {h \in H : hs[h].ready}

Write == {[op |-> "write", file |-> f, v |-> v] : f \in Files, v \in {"A", "B", "C", "D", "E", "F", "G", "P"}}
WritePlain == {o \in Write : o.v \in {"A", "B", "C", "P"}}
WriteUse == {o \in Write : Uses(o.v)}
\* texts that differ from the one there in one place only
WriteNear == {o \in Write : files[o.file].v # o.v /\ files[o.file].v \in {"A", "G", "P", "B"} /\ o.v \in {"A", "G", "P", "B"}}
WriteSame == {[op |-> "write", file |-> f, v |-> files[g].v] : f \in Files, g \in {g \in Files : files[g].v # "none"}}
Funcs == {[op |-> "funcs", file |-> f, f |-> x] : f \in Files, x \in {"f1", "f2", "none"}}
FuncsUse == {o \in Funcs : Uses(files[o.file].v) /\ o.f # "none" /\ o.f # files[o.file].f}
Read == IF Len(hs) >= MaxH THEN {} ELSE {[op |-> "read", file |-> f, dir |-> FDir(f), nocache |-> n] : f \in {f \in Files : files[f].v # "none"}, n \in {FALSE, FALSE, TRUE}}
ReadUse == {o \in Read : Uses(files[o.file].v) /\ ~o.nocache}
ReadC == {o \in Read : ~o.nocache}
ReadN == {o \in Read : o.nocache}
Set == {[op |-> "set", h |-> h, name |-> q[1], value |-> q[2]] : h \in H, q \in Vals}
       \cup {[op |-> "set", h |-> h, name |-> q[1], value |-> q[2], lmax |-> 2, kmax |-> 5] : h \in H, q \in Vals}
Data == {[op |-> "data", h |-> h, Z |-> DataSet(T, s, "0.6"), start |-> y] : h \in H, T \in {4, 5}, s \in {11, 305}, y \in {"1999Q1", "2005Q2"}}
PrepL == {[op |-> "prep", h |-> h, linear |-> TRUE, R |-> R, seed |-> 0, upt |-> -1] : h \in HasData, R \in RMats}
PrepN == {[op |-> "prep", h |-> h, linear |-> FALSE, R |-> R, N |-> n, seed |-> s, upt |-> -1] : h \in HasData, R \in RMats, n \in {12, 20}, s \in {0, 4}}
\* settings that matter for the values of the posterior
PrepS == {[op |-> "prep", h |-> h, linear |-> FALSE, R |-> R, N |-> n, seed |-> s, upt |-> u] : h \in HasData, R \in RMats, n \in {12, 20}, s \in {4, 5}, u \in {-1, 0, 1}}
         \cup {[op |-> "prep", h |-> h, linear |-> TRUE, R |-> R, seed |-> s, upt |-> u] : h \in HasData, R \in RMats, s \in {4, 5}, u \in {0, 1}}
SetR == {[op |-> "setr", h |-> h, R |-> R] : h \in HasReady, R \in RMats}
SetR1 == {o \in SetR : o.h = Len(hs)}
Lprob1 == {[op |-> "lprob", h |-> h, vec |-> [EstVec(Calib) EXCEPT ![1] = RMul("0.99", @)]] : h \in {h \in HasReady : h = Len(hs)}}
LoadEstL == {[op |-> "loadest", h |-> h] : h \in {h \in H : h = Len(hs) /\ hs[h].est}}
Lprob == {[op |-> "lprob", h |-> h, vec |-> v] : h \in HasReady, v \in PtSet}
Mcmc == {[op |-> "mcmc", h |-> h, seed |-> s, tune |-> t, own |-> FALSE] : h \in {h \in HasReady : hs[h].lin}, s \in {2, 7}, t \in {1, 2}}
Mcmc1 == {[op |-> "mcmc", h |-> h, seed |-> 7, tune |-> 2, own |-> TRUE] : h \in {h \in HasReady : hs[h].lin /\ h = Len(hs)}}
Rename == {[op |-> "rename", h |-> h, name |-> n] : h \in H, n \in {"mine", "pm"}}
Mutate == {[op |-> "mutate", h |-> h] : h \in H}
Save == {[op |-> "save", h |-> h] : h \in H} \cup {[op |-> "save", h |-> h, file |-> f, ext |-> e] : h \in H, f \in {"a/store.npz", "b/kept.npz"}, e \in BOOLEAN}
SaveL == {o \in Save : o.h = Len(hs)}
Hows == IF Len(hs) >= MaxH THEN {"fork"} ELSE {"obj", "text", "fork"}
DirOf(f) == IF f[1] = "b" THEN "b" ELSE "a"
Load == {[op |-> "load", file |-> f, dir |-> npz[f].at, how |-> w, force |-> fp, vec |-> EstVec(Calib)] : f \in DOMAIN npz, w \in Hows, fp \in BOOLEAN}
LoadNew == {[op |-> "load", file |-> f, dir |-> npz[f].at, how |-> "new", force |-> fp, vec |-> EstVec(Calib)] : f \in DOMAIN npz, fp \in BOOLEAN}
LoadT == {o \in Load : o.how = "text"}
LoadO == {o \in Load : o.how \in {"obj", "text"}}
LoadEst == {[op |-> "loadest", h |-> h] : h \in {h \in H : hs[h].est /\ ~hs[h].ready}}
Srd == {[op |-> "srd", h |-> h, path |-> p, abs |-> a, adir |-> "b", suffix |-> s, val |-> r] : h \in H, p \in RdPaths, a \in BOOLEAN, s \in {"", "_1"}, r \in RdVals}
Lrd == {[op |-> "lrd", h |-> h, path |-> o.path, abs |-> o.abs, adir |-> "b", suffix |-> o.suffix] : h \in H, o \in {o \in Range(ops) : o.op = "srd"}}
       \cup {[op |-> "lrd", h |-> h, path |-> p, abs |-> FALSE, adir |-> "b", suffix |-> ""] : h \in H, p \in RdPaths}

Class(c) ==
    CASE c = "write" -> Write [] c = "writesame" -> WriteSame [] c = "writeuse" -> WriteUse [] c = "writenear" -> WriteNear [] c = "funcsuse" -> FuncsUse [] c = "readuse" -> ReadUse [] c = "readc" -> ReadC [] c = "readn" -> ReadN [] c = "funcs" -> Funcs [] c = "read" -> Read [] c = "set" -> Set [] c = "data" -> Data [] c = "prep" -> PrepL
      [] c = "prepn" -> PrepN [] c = "lprob" -> Lprob [] c = "mcmc" -> Mcmc [] c = "rename" -> Rename [] c = "mutate" -> Mutate
      [] c = "save" -> Save [] c = "load" -> Load [] c = "writeplain" -> WritePlain [] c = "loadt" -> LoadT [] c = "loadnew" -> LoadNew [] c = "loadest" -> LoadEst [] c = "preps" -> PrepS [] c = "mcmc1" -> Mcmc1 [] c = "lprob1" -> Lprob1 [] c = "loado" -> LoadO [] c = "loadestl" -> LoadEstL [] c = "setr" -> SetR [] c = "setr1" -> SetR1 [] c = "savel" -> SaveL [] c = "srd" -> Srd [] c = "lrd" -> Lrd
Mix(S, n) == [i \in 1..n |-> S]
Program ==
    CASE Fam = "cache" -> <<<<"write">>, <<"read">>, <<"write", "funcs", "writesame">>, <<"read", "set">>>>
                          \o Mix(<<"write", "writesame", "funcs", "funcs", "read", "read", "read", "set", "set", "mutate", "rename", "data">>, 8) \o <<<<"read">>>>
      [] Fam = "cachef" -> <<<<"writeuse">>, <<"funcsuse">>, <<"readuse">>, <<"funcsuse">>, <<"readuse">>, <<"funcsuse", "writesame", "set">>, <<"funcsuse">>, <<"readuse">>>>
                           \o Mix(<<"set", "save", "load", "funcsuse">>, 3)
      [] Fam = "cachen" -> <<<<"write">>, <<"readc">>, <<"writenear">>, <<"readc">>, <<"writenear", "writesame">>, <<"readc">>, <<"set">>, <<"writenear", "writesame">>, <<"readc">>>>
      [] Fam = "cachest" -> <<<<"write">>, <<"read">>, <<"data">>, <<"prep">>>> \o Mix(<<"lprob", "set", "read", "read", "mcmc", "save", "write">>, 5) \o <<<<"read", "set">>, <<"lprob">>>>
      [] Fam = "store" -> <<<<"write">>, <<"funcs">>, <<"read">>, <<"data", "set">>, <<"prep", "prepn", "set">>>> \o Mix(<<"mcmc", "lprob", "save", "rename", "set">>, 3)
                          \o <<<<"save">>, <<"load">>>> \o Mix(<<"load", "loadest", "loadest", "lprob", "lprob", "set", "save", "write", "funcs">>, 5)
      [] Fam = "store2" -> <<<<"write">>, <<"read">>, <<"data">>, <<"prep", "prepn">>, <<"lprob">>, <<"save">>, <<"load">>, <<"loadest">>, <<"lprob">>, <<"save">>, <<"load">>, <<"loadest">>, <<"lprob">>>>
      [] Fam = "storeset" -> <<<<"write">>, <<"funcs">>, <<"read">>, <<"data">>, <<"preps", "set">>, <<"preps">>, <<"lprob1">>, <<"mcmc1", "lprob1">>, <<"save">>, <<"loado">>, <<"loadestl">>, <<"lprob1">>, <<"mcmc1", "lprob1">>,
                               <<"save">>, <<"loado">>, <<"loadestl">>, <<"lprob1">>>>
      [] Fam = "storer" -> <<<<"write">>, <<"funcs">>, <<"read">>, <<"data">>, <<"preps">>, <<"lprob1", "savel">>, <<"savel">>, <<"setr1", "setr1", "preps", "data">>, <<"lprob1">>, <<"savel">>, <<"loado">>, <<"loadestl">>, <<"lprob1">>,
                               <<"setr1">>, <<"lprob1", "mcmc1">>, <<"savel">>, <<"loado">>, <<"loadestl">>, <<"lprob1">>>>
      [] Fam = "storec" -> <<<<"writeplain">>, <<"read">>, <<"writeplain">>, <<"readc">>, <<"set">>, <<"save">>, <<"save">>, <<"loadt">>, <<"loadt">>>>
      [] Fam = "storenew" -> <<<<"write">>, <<"funcs">>, <<"read">>, <<"data">>, <<"prep">>, <<"mcmc", "lprob">>, <<"save">>, <<"funcs">>, <<"loadnew">>>>
      [] Fam = "rd" -> <<<<"write">>, <<"read">>>> \o Mix(<<"srd", "srd", "lrd", "rename", "read">>, 6) \o <<<<"lrd">>, <<"lrd">>>>

Effect(o) ==
    LET h == IF "h" \in DOMAIN o THEN hs[o.h] ELSE <<>> IN
    CASE o.op = "write" -> files' = [files EXCEPT ![o.file].v = o.v] /\ UNCHANGED <<hs, npz>>
      [] o.op = "funcs" -> files' = [files EXCEPT ![o.file].f = o.f] /\ UNCHANGED <<hs, npz>>
      [] o.op = "read" -> hs' = (IF CanRead(o.file) THEN Append(hs, [NewH(files[o.file].v, files[o.file].f, o.dir, NameOf(files[o.file].v)) EXCEPT !.est = FALSE] @@ [lin |-> TRUE]) ELSE hs) /\ UNCHANGED <<files, npz>>
      [] o.op = "data" -> hs' = [hs EXCEPT ![o.h].data = TRUE] /\ UNCHANGED <<files, npz>>
      [] o.op = "prep" -> hs' = [hs EXCEPT ![o.h].est = TRUE, ![o.h].ready = TRUE, ![o.h].lin = (o.linear /\ o.upt # 1)] /\ UNCHANGED <<files, npz>>
      [] o.op = "loadest" -> hs' = [hs EXCEPT ![o.h].ready = TRUE] /\ UNCHANGED <<files, npz>>
      [] o.op = "rename" -> hs' = [hs EXCEPT ![o.h].name = o.name] /\ UNCHANGED <<files, npz>>
      [] o.op = "save" -> LET f == IF "file" \in DOMAIN o THEN o.file ELSE h.dir \o "/" \o h.name \o "_meta.npz" IN
                          /\ npz' = [j \in DOMAIN npz \cup {f} |-> IF j = f THEN [at |-> IF "file" \in DOMAIN o THEN (IF o.file = "b/kept.npz" THEN "b" ELSE "a") ELSE h.dir] @@ h ELSE npz[j]]
                          /\ UNCHANGED <<files, hs>>
      [] o.op = "load" -> hs' = (IF o.how \in {"obj", "text"} THEN Append(hs, [npz[o.file] EXCEPT !.dir = o.dir, !.ready = FALSE]) ELSE hs) /\ UNCHANGED <<files, npz>>
      [] OTHER -> UNCHANGED <<files, hs, npz>>

At == Len(ops) + 1
GenInit == ops = <<>> /\ cls = "" /\ files = [f \in Files |-> None0] /\ hs = <<>> /\ npz = <<>>
GenNext ==
    \/ /\ cls = "" /\ At <= Len(Program)
       /\ \E j \in DOMAIN Program[At] : Class(Program[At][j]) # {} /\ cls' = Program[At][j]
       /\ UNCHANGED <<ops, files, hs, npz>>
    \/ /\ cls \notin {"", "end"}
       /\ \E o \in Class(cls) : ops' = Append(ops, o) /\ Effect(o)
       /\ cls' = ""
    \/ /\ cls = "" /\ (At = Len(Program) + 1 \/ (At <= Len(Program) /\ \A j \in DOMAIN Program[At] : Class(Program[At][j]) = {}))
       /\ PrintT("@@" \o ToJson([ops |-> ops]))
       /\ cls' = "end" /\ UNCHANGED <<ops, files, hs, npz>>
===============================================================================
