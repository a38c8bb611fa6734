------------------------------ MODULE LibTrace -------------------------------
(* Validation of recorded work with files and several models against Library. *)
EXTENDS Library, Json, IOUtils
VARIABLES tr, i, st
TStart(trace) == LStart
INSTANCE TraceRun WITH Start <- TStart, Judge <- LJudge
===============================================================================
