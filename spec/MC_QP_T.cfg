SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 K = 8
 Coefs = {0, 1, 2}
 Slopes <- S5
 Reckless = FALSE
INVARIANTS
 Feasible
 Close
 Solvable
