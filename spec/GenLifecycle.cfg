CONSTANT MaxOps = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Emit
