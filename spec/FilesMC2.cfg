SPECIFICATION Spec
CONSTANTS Dump = TRUE MaxGiven = 2
INVARIANTS Complete OncePerPath NoHidden NoLeftOut Scenarios TreeDump
CHECK_DEADLOCK FALSE
