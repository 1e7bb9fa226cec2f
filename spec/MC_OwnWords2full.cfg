SPECIFICATION Spec
CONSTANTS Depth = 2
 Pan = {0, 1, 2, 3, 4}
INVARIANT Emit
CHECK_DEADLOCK FALSE
