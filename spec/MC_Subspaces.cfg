SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Top = 6
 OneWay = FALSE
INVARIANTS
 BestOfAll
 WholeIsKept
PROPERTIES
 Grows
 Ends
