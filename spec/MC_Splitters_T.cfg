CONSTANTS MaxN = 6
 Labels <- Labs
SPECIFICATION Spec
INVARIANTS Admissible HeldOut NeverStuck
CHECK_DEADLOCK FALSE
