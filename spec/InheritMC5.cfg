SPECIFICATION Spec
CONSTANTS N = 5 Dump = TRUE
INVARIANTS Order Complete Scenarios
CHECK_DEADLOCK FALSE
