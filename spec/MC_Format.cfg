CONSTANTS Words = {"1", "-2"}
 N = 2
SPECIFICATION Spec
INVARIANTS Unique Length Ordered Rooms
CHECK_DEADLOCK FALSE
