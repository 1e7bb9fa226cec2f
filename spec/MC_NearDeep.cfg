CONSTANTS Top = 2
 N = 3
SPECIFICATION Spec
INVARIANTS Reflexive Symmetric Growing Exact EachCounts Opposite SameByFacts
CHECK_DEADLOCK FALSE
