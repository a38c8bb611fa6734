------------------------------ MODULE FaultTrace -----------------------------
EXTENDS Faults, Json, IOUtils
VARIABLES tr, i, st
INSTANCE TraceRun WITH Start <- FStart, Judge <- FJudge
===============================================================================
