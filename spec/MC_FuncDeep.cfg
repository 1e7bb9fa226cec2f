CONSTANTS Top = 20
SPECIFICATION Spec
INVARIANTS Integral Bounds Parts Signs MinMax Clamps Spreads Fma
CHECK_DEADLOCK FALSE
