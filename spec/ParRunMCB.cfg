SPECIFICATION Spec
CONSTANTS W = 3 Dump = FALSE Barrier = TRUE
INVARIANTS Honest StatusOfOne InOrder NotEarly Scenarios
PROPERTY Terminates
CHECK_DEADLOCK FALSE
