------------------------------ MODULE SampTrace ------------------------------
EXTENDS Sampler, Json, IOUtils
VARIABLES tr, i, st
INSTANCE TraceRun WITH Start <- MStart, Judge <- MJudge
===============================================================================
