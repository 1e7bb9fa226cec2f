SPECIFICATION Spec
CONSTANT P = 3
INVARIANTS Derivative Composition
CHECK_DEADLOCK FALSE
