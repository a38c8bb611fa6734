------------------------------ MODULE PoolTrace ------------------------------
EXTENDS Pool, Json, IOUtils
VARIABLES tr, i, st
INSTANCE TraceRun WITH Start <- LStart, Judge <- LJudge
===============================================================================
