SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 4
 Given = "instance"
 Carry = FALSE
 Shares = FALSE
 Residue = TRUE
INVARIANTS
 OwnHistory

