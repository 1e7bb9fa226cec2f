SPECIFICATION Spec
CONSTANT P = 5
INVARIANTS Derivative Composition
CHECK_DEADLOCK FALSE
