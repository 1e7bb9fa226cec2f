CONSTANTS Values <- Few
 Attempts = 2
SPECIFICATION Spec
INVARIANTS Conforms Sound Only
PROPERTIES Returns
CHECK_DEADLOCK FALSE
