SPECIFICATION Spec
CONSTANT Depth = 2
VIEW View
INVARIANTS Accepted Equations BoundPath Complement NeverBelow FirstOne Rows
CHECK_DEADLOCK FALSE
