CONSTANTS Words = {"1", "-20", "x)"}
 N = 2
SPECIFICATION Spec
INVARIANTS Unique Length Ordered Rooms
CHECK_DEADLOCK FALSE
