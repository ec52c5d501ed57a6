SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Top = 16
 OneWay = FALSE
INVARIANTS
 BestOfAll
 WholeIsKept
PROPERTIES
 Grows
 Ends
