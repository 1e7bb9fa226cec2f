CONSTANT Top = 1100
SPECIFICATION Spec
INVARIANTS Absolute Product Order Range8
CHECK_DEADLOCK FALSE
