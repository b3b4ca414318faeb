SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Normal Value Told Kept Scenarios
CHECK_DEADLOCK FALSE
