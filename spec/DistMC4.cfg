SPECIFICATION Spec
CONSTANTS MaxLen = 4 MaxN = 4 Dump = TRUE
INVARIANTS Once Together Even Few Agree Sharp Scenarios
CHECK_DEADLOCK FALSE
