SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 4
 Given = "instance"
 Carry = FALSE
 Shares = TRUE
 Residue = FALSE
INVARIANTS
 OwnHistory

