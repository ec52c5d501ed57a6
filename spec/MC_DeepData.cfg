SPECIFICATION Spec
CONSTANTS MaxOps = 3
          Bad = FALSE
INVARIANTS Integrity SplitMerge
PROPERTY OthersKept
CHECK_DEADLOCK FALSE
