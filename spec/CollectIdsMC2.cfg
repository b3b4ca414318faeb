SPECIFICATION Spec
CONSTANTS Dump = TRUE MaxEntries = 2 MaxEntriesTwo = 2
INVARIANTS Once Found Unique Printable Expanded Scenarios
CHECK_DEADLOCK FALSE
