SPECIFICATION Spec
CONSTANTS MaxOps = 6  Direct = FALSE  Trust = FALSE
INVARIANTS Recovers CacheEnough AtMostOneDownload NoSilentDownload OnlyWholeAnswers CacheKept Summary
CHECK_DEADLOCK FALSE
