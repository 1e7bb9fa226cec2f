CONSTANTS Rows = 3
 Cols = 3
 Vals = {0, 1}
 MaxWrites = 3
SPECIFICATION Spec
VIEW View
INVARIANTS Consistent Outside
PROPERTIES Frame
CHECK_DEADLOCK FALSE
