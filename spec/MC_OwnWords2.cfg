SPECIFICATION Spec
CONSTANTS Depth = 2
 Pan = {0, 2}
INVARIANT Emit
CHECK_DEADLOCK FALSE
