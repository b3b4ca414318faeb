SPECIFICATION Spec
CONSTANTS Dump = TRUE MaxEntries = 2
INVARIANTS Capped Faithful Order Last Scenarios
CHECK_DEADLOCK FALSE
