SPECIFICATION Spec
CONSTANTS Dump = TRUE MaxGiven = 1
INVARIANTS Complete OncePerPath NoHidden NoLeftOut Scenarios TreeDump
CHECK_DEADLOCK FALSE
