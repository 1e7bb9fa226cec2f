CONSTANTS P = 7
 Depth = 1
SPECIFICATION Spec
VIEW View
INVARIANTS Group Reorder Derivative Normals Rotations HalfAngle Curved
CHECK_DEADLOCK FALSE
