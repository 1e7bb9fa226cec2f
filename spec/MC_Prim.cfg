CONSTANT Top = 40
SPECIFICATION Spec
INVARIANTS Absolute Product Order Range8
CHECK_DEADLOCK FALSE
