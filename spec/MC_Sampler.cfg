SPECIFICATION Spec
CONSTANTS MaxN = 5
          Early = FALSE
INVARIANTS Prefix Whole_ Fair Batches Covers
CHECK_DEADLOCK FALSE
