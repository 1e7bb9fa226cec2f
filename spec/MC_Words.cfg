SPECIFICATION Spec
CONSTANT Depth = 3
CHECK_DEADLOCK FALSE
