CONSTANTS Step = 1500
 Tol = 8
SPECIFICATION Spec
INVARIANTS Circle Even Points Addition Exponent Monotone Pythagoras Hyperbolic Euler
CHECK_DEADLOCK FALSE
