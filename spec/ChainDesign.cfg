SPECIFICATION Spec
CONSTANTS MaxRuns = 4
 Steps = 3
 Counted = TRUE
 Reset = TRUE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
