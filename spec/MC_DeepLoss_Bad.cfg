SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 M = 3
 Vals <- V3
 Loose = TRUE
INVARIANTS
 Symmetric
 NotNegative
 ZeroIffAlike
 Orderless
 ClassZero
 Transport
