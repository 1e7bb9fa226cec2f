SPECIFICATION Spec
CONSTANTS Depth = 20
 Pan = {0, 2, 4}
INVARIANT Emit
CHECK_DEADLOCK FALSE
