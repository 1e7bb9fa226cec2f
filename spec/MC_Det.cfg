CONSTANTS P = 3
 Rounds = 40
SPECIFICATION Spec
INVARIANTS Agree Expansion Triple
CHECK_DEADLOCK FALSE
