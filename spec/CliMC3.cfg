SPECIFICATION Spec
CONSTANTS Dump = TRUE MaxEntries = 3
INVARIANTS Capped Faithful Order Last Scenarios
CHECK_DEADLOCK FALSE
