SPECIFICATION Spec
CONSTANTS MaxN = 6
          Early = FALSE
INVARIANTS Prefix Whole_ Fair Batches Covers
CHECK_DEADLOCK FALSE
