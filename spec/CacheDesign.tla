------------------------------ MODULE CacheDesign ------------------------------
(***************************************************************************)
(* Design of reading, storing and loading models with a cache of parsed    *)
(* models, against the cache-free meaning of the same operations.          *)
(*                                                                         *)
(* Objects live in a heap (cell -> content), because the question is who   *)
(* shares what: a handle and a cache entry hold a cell.  A cell holds the  *)
(* text t and functions f it was parsed from, and a mutable part d that    *)
(* the user changes through a handle.  ref[i] is what handle i has to be:  *)
(* the content of its file when it was read, and its own changes.          *)
(*                                                                         *)
(* KeyFuncs: the cache compares the functions file as well as the text;    *)
(* CopyIn, CopyOut: entries are copies of the model at hand, and models    *)
(* from the cache are copies of the entry.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Files, Texts, Funcs, MaxH, MaxOps, KeyFuncs, CopyIn, CopyOut, None
VARIABLES files, heap, hs, cache, store, ref, sref, n
vars == <<files, heap, hs, cache, store, ref, sref, n>>
New == Cardinality(DOMAIN heap) + 1
Cell(t, f) == [t |-> t, f |-> f, d |-> 0]
Init == /\ files = [x \in Files |-> [t |-> CHOOSE t \in Texts : TRUE, f |-> None]]
        /\ heap = <<>> /\ hs = <<>> /\ cache = <<>> /\ store = None /\ ref = <<>> /\ sref = None /\ n = 0
Step == n < MaxOps /\ n' = n + 1
Write == Step /\ \E x \in Files, t \in Texts : files' = [files EXCEPT ![x].t = t] /\ UNCHANGED <<heap, hs, cache, store, ref, sref>>
WriteF == Step /\ \E x \in Files, f \in Funcs \cup {None} : files' = [files EXCEPT ![x].f = f] /\ UNCHANGED <<heap, hs, cache, store, ref, sref>>
Hits(c) == {i \in DOMAIN cache : heap[cache[i]].t = c.t /\ (~KeyFuncs \/ heap[cache[i]].f = c.f)}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Add(h, c) == h @@ (Cardinality(DOMAIN h) + 1 :> c)
\* a model for the content c, with or without the cache
Obtain(c, nocache) ==
    /\ IF Hits(c) # {} /\ ~nocache
       THEN LET e == cache[First(Hits(c))] IN
            IF CopyOut THEN heap' = Add(heap, heap[e]) /\ hs' = Append(hs, New) /\ cache' = cache
            ELSE heap' = heap /\ hs' = Append(hs, e) /\ cache' = cache
       ELSE /\ heap' = IF CopyIn THEN Add(Add(heap, Cell(c.t, c.f)), Cell(c.t, c.f)) ELSE Add(heap, Cell(c.t, c.f))
            /\ hs' = Append(hs, New)
            /\ cache' = Append(cache, IF CopyIn THEN New + 1 ELSE New)
Read == /\ Step /\ Len(hs) < MaxH
        /\ \E x \in Files, nc \in BOOLEAN : Obtain(files[x], nc) /\ ref' = Append(ref, Cell(files[x].t, files[x].f))
        /\ UNCHANGED <<files, store, sref>>
\* the user changes a model
Change == Step /\ \E i \in DOMAIN hs : /\ heap[hs[i]].d < 2
                                       /\ heap' = [heap EXCEPT ![hs[i]].d = @ + 1]
                                       /\ ref' = [ref EXCEPT ![i].d = @ + 1]
                                       /\ UNCHANGED <<files, hs, cache, store, sref>>
Save == Step /\ \E i \in DOMAIN hs : store' = heap[hs[i]] /\ sref' = ref[i] /\ UNCHANGED <<files, heap, hs, cache, ref>>
\* parse the stored text (a model from the cache if there is one for it), then put the stored part in place
Load == /\ Step /\ store # None /\ Len(hs) < MaxH
        /\ IF Hits(store) # {}
           THEN LET e == cache[First(Hits(store))] IN
                IF CopyOut THEN heap' = Add(heap, [heap[e] EXCEPT !.d = store.d]) /\ hs' = Append(hs, New)
                ELSE heap' = [heap EXCEPT ![e].d = store.d] /\ hs' = Append(hs, e)
           ELSE heap' = Add(heap, store) /\ hs' = Append(hs, New)
        /\ ref' = Append(ref, sref) /\ UNCHANGED <<files, cache, store, sref>>
Next == Write \/ WriteF \/ Read \/ Change \/ Save \/ Load
Spec == Init /\ [][Next]_vars
\* what the user sees is the cache-free meaning
CacheFree == \A i \in DOMAIN hs : heap[hs[i]] = ref[i]
Pristine == \A i \in DOMAIN cache : heap[cache[i]].d = 0
Stored == store = sref
===============================================================================
