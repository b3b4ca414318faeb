SPECIFICATION Spec
CONSTANTS W = 4 Dump = FALSE Barrier = FALSE
INVARIANTS Honest StatusOfOne InOrder NotEarly
PROPERTY Terminates
CHECK_DEADLOCK FALSE
