SPECIFICATION Spec
CONSTANT Depth = 3
VIEW View
INVARIANTS Accepted Equations BoundPath Complement NeverBelow FirstOne Rows
CHECK_DEADLOCK FALSE
