------------------------------ MODULE DictTrace ------------------------------
EXTENDS Dict, Json, IOUtils
VARIABLES tr, i, st
INSTANCE TraceRun WITH Start <- DStart, Judge <- DJudge
===============================================================================
