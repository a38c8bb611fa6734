------------------------------- MODULE PfTrace -------------------------------
EXTENDS ParaFunc, Json, IOUtils
VARIABLES tr, i, st
INSTANCE TraceRun WITH Start <- PStartF, Judge <- PfJudge
===============================================================================
