SPECIFICATION Spec
CONSTANTS W = 3
 Tasks = 4
 Calls = 2
 Renew = TRUE
 Copies = FALSE
INVARIANTS Serial Kept
PROPERTY Returns
CHECK_DEADLOCK FALSE
