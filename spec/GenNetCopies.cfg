SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 5
CONSTRAINT
 Emit
