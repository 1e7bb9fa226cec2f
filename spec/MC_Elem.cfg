SPECIFICATION Spec
INVARIANTS Division Zero Bits Orders NotANumber Rounding
CHECK_DEADLOCK FALSE
