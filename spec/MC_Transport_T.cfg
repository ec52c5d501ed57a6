SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 Costs = {0, 1, 2}
 PairsOnly = FALSE
INVARIANTS
 Least
PROPERTIES
 Falls
 Ends
