SPECIFICATION Spec
CONSTANTS MaxOps = 3  Direct = TRUE  Trust = FALSE
INVARIANTS Recovers CacheEnough AtMostOneDownload NoSilentDownload OnlyWholeAnswers CacheKept Summary
CHECK_DEADLOCK FALSE
