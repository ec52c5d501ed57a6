SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 K = 3
 Coefs = {1, 2}
 Slopes <- S3
 Reckless = TRUE
INVARIANTS
 Feasible
 Close
 Solvable
