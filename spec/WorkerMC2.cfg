SPECIFICATION Spec
CONSTANTS T = 2
INVARIANTS OneRecordEach PassedMeansAllRan NoBodyAfterBadSetup TeardownOnceSetUp Scenarios
PROPERTY Terminates
CHECK_DEADLOCK FALSE
