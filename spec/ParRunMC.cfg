SPECIFICATION Spec
CONSTANTS W = 3 Dump = TRUE Barrier = FALSE
INVARIANTS Honest StatusOfOne InOrder NotEarly Scenarios
PROPERTY Terminates
CHECK_DEADLOCK FALSE
