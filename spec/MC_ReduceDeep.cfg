CONSTANTS P = 7
 N = 3
SPECIFICATION Spec
INVARIANTS Unique Root Norms Symmetric
CHECK_DEADLOCK FALSE
