CONSTANT P = 5
SPECIFICATION Spec
INVARIANTS Neutral Inverses Products
CHECK_DEADLOCK FALSE
