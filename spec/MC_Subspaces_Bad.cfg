SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Top = 6
 OneWay = TRUE
INVARIANTS
 BestOfAll
