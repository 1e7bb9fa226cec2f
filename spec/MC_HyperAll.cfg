CONSTANTS P = 3
 Third = "all"
SPECIFICATION Spec
INVARIANTS Single Pairs Triples
CHECK_DEADLOCK FALSE
