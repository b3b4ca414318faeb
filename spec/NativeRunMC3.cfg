SPECIFICATION Spec
CONSTANTS W = 3 Barrier = FALSE
INVARIANTS Honest Counts NotEarly Clean Scenarios
PROPERTY Terminates
CHECK_DEADLOCK FALSE
