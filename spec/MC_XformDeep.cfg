CONSTANTS P = 7
 Depth = 2
SPECIFICATION Spec
VIEW View
INVARIANTS Group Reorder Derivative Normals Rotations HalfAngle Curved
CHECK_DEADLOCK FALSE
