INIT Init
NEXT Next
INVARIANTS RunsUnlessMarked ReasonIsGiven MethodFirst NearestClass Scenarios
CHECK_DEADLOCK FALSE
