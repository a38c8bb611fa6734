------------------------------ MODULE ChainTrace ------------------------------
EXTENDS Chain, Json, IOUtils
VARIABLES tr, i, st
INSTANCE TraceRun WITH Start <- CStart, Judge <- CJudge
===============================================================================
