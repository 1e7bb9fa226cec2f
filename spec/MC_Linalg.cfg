CONSTANT P = 3
SPECIFICATION Spec
INVARIANTS Neutral Inverses Products
CHECK_DEADLOCK FALSE
