SPECIFICATION Spec
CONSTANT Dump = TRUE
INVARIANTS Right Inside Denotes Scenarios
CHECK_DEADLOCK FALSE
