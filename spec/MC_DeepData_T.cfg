SPECIFICATION Spec
CONSTANTS MaxOps = 4
          Bad = FALSE
INVARIANTS Integrity SplitMerge
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
