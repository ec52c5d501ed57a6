CONSTANTS MaxN = 7
 Groups = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Result Possible NotStuck
CHECK_DEADLOCK FALSE
