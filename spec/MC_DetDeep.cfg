CONSTANTS P = 3
 Rounds = 400
SPECIFICATION Spec
INVARIANTS Agree Expansion Triple
CHECK_DEADLOCK FALSE
