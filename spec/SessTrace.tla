------------------------------ MODULE SessTrace ------------------------------
(* Validation of recorded sessions against Session. *)
EXTENDS Session, Json, IOUtils
VARIABLES tr, i, st
SStart0 == TLCEval(SStart)
TStart(trace) == SStart0
INSTANCE TraceRun WITH Start <- TStart, Judge <- SJudge
===============================================================================
