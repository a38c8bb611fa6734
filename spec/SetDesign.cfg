SPECIFICATION Spec
CONSTANTS Values = {1, 2, 3}
 MaxOps = 5
 Restore = TRUE
 Keep = TRUE
 FilterPart = TRUE
INVARIANTS Parts1 Wanted
CHECK_DEADLOCK FALSE
