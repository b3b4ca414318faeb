SPECIFICATION Spec
CONSTANTS W = 3 Barrier = TRUE
INVARIANTS Honest Counts NotEarly Clean
PROPERTY Terminates
CHECK_DEADLOCK FALSE
