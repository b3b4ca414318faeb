SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Normal Value Told Kept Scenarios
CHECK_DEADLOCK FALSE
