SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 K = 5
 Coefs = {1, 2}
 Slopes <- S3
 Reckless = FALSE
INVARIANTS
 Feasible
 Close
 Solvable
