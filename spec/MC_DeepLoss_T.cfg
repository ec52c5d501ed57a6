SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 M = 4
 Vals <- V4
 Loose = FALSE
INVARIANTS
 Symmetric
 NotNegative
 ZeroIffAlike
 Orderless
 ClassZero
 Transport
