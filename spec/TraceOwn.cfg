SPECIFICATION Spec
VIEW View
INVARIANTS Conforms Disjoint
CHECK_DEADLOCK FALSE
