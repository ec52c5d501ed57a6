SPECIFICATION Spec
CONSTANTS MaxOps = 3
          Bad = TRUE
INVARIANTS Integrity SplitMerge
CHECK_DEADLOCK FALSE
