SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 RegIds = {1, 2}
INVARIANTS Disjoint Once Accounted DeadIsNowhere AllDropped
PROPERTIES LeakedIsLost
CHECK_DEADLOCK FALSE
