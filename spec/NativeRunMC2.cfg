SPECIFICATION Spec
CONSTANTS W = 2 Barrier = FALSE
INVARIANTS Honest Counts NotEarly Clean Scenarios
PROPERTY Terminates
CHECK_DEADLOCK FALSE
