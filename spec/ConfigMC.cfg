SPECIFICATION Spec
CONSTANT Dump = TRUE
INVARIANTS Exact Scenarios
CHECK_DEADLOCK FALSE
