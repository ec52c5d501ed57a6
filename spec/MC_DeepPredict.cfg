SPECIFICATION Spec
CONSTANTS MaxN = 5
INVARIANTS InOrder OnlyAllowed Complete
CHECK_DEADLOCK FALSE
