SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 K = 2
 Lazy = FALSE
INVARIANTS
 Bounded
 AtEnd
PROPERTIES
 Stops
