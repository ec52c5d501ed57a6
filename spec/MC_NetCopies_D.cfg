SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 5
 Given = "class"
 Carry = TRUE
 Shares = FALSE
 Residue = FALSE
INVARIANTS
 OwnHistory
 Apart
 Anew
 CopyIsEqual
 CloneIsUnfitted
PROPERTIES
 OthersUntouched
