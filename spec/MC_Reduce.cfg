CONSTANTS P = 7
 N = 2
SPECIFICATION Spec
INVARIANTS Unique Root Norms Symmetric
CHECK_DEADLOCK FALSE
