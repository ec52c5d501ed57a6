SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 6
 Given = "class"
 Carry = TRUE
 Shares = FALSE
 Residue = FALSE
INVARIANTS
 OwnHistory
 Apart
 Anew
 CopyIsEqual
 CloneIsUnfitted
PROPERTIES
 OthersUntouched
