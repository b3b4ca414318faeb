SPECIFICATION Spec
CONSTANTS Kinds = {"fun", "static", "none", "classm"}
INVARIANTS Once Before BaseOrder Monotone Inherit OwnFirst Scenarios
CHECK_DEADLOCK FALSE
