SPECIFICATION Spec
CONSTANTS MaxIds = 4
 MaxOps = 3
INVARIANTS Good Free Lists Product Scenarios
PROPERTY Isolated
CHECK_DEADLOCK FALSE
