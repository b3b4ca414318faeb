SPECIFICATION Spec
CONSTANTS MaxLen = 3 MaxN = 3 Dump = TRUE
INVARIANTS Once Together Even Few Agree Sharp Scenarios
CHECK_DEADLOCK FALSE
