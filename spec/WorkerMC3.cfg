SPECIFICATION Spec
CONSTANTS T = 3
INVARIANTS OneRecordEach PassedMeansAllRan NoBodyAfterBadSetup TeardownOnceSetUp Scenarios
PROPERTY Terminates
CHECK_DEADLOCK FALSE
