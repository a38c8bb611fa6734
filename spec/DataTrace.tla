------------------------------ MODULE DataTrace ------------------------------
EXTENDS DataLoad, Json, IOUtils
VARIABLES tr, i, st
TStart(trace) == DStart
INSTANCE TraceRun WITH Start <- TStart, Judge <- DJudge
===============================================================================
