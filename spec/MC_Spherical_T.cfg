SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 5
 K = 3
 Lazy = FALSE
INVARIANTS
 Bounded
 AtEnd
PROPERTIES
 Stops
