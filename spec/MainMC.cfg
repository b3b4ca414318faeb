SPECIFICATION Spec
CONSTANT Dump = TRUE
INVARIANTS Exits Runs NeverMore Shows OnlyThen Processed Scenarios
CHECK_DEADLOCK FALSE
