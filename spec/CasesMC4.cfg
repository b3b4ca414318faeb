SPECIFICATION Spec
CONSTANTS MaxIds = 5
 MaxOps = 4
INVARIANTS Good Free Lists Product Scenarios
PROPERTY Isolated
CHECK_DEADLOCK FALSE
