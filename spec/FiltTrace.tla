------------------------------ MODULE FiltTrace ------------------------------
(* Validation of recorded filter runs against Filt. *)
EXTENDS Filt, Json, IOUtils
VARIABLES tr, i, st
TStart(trace) == FStart
INSTANCE TraceRun WITH Start <- TStart, Judge <- FJudge
===============================================================================
