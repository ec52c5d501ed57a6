SPECIFICATION Spec
CONSTANTS MaxN = 5
          Early = TRUE
INVARIANTS Prefix Whole_ Fair Batches Covers
CHECK_DEADLOCK FALSE
