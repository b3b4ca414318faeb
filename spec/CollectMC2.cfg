SPECIFICATION Spec
CONSTANTS Dump = TRUE MaxGiven = 2
INVARIANTS Complete Once Ordered Refused Monotone Scenarios TreeDump
CHECK_DEADLOCK FALSE
