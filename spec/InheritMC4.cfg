SPECIFICATION Spec
CONSTANTS N = 4 Dump = TRUE
INVARIANTS Order Complete Scenarios
CHECK_DEADLOCK FALSE
