CONSTANTS P = 3
 Third = "basis"
SPECIFICATION Spec
INVARIANTS Single Pairs Triples
CHECK_DEADLOCK FALSE
