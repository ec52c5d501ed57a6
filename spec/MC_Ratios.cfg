SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Cells = {1, 2, 4}
 Max = 4
 Upside = FALSE
INVARIANTS
 Reproduces
 MeanOne
 Counted
 LnLaws
