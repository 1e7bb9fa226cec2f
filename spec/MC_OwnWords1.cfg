SPECIFICATION Spec
CONSTANTS Depth = 1
 Pan = {0, 1, 2, 3, 4}
INVARIANT Emit
CHECK_DEADLOCK FALSE
