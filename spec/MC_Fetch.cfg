SPECIFICATION Spec
CONSTANTS MaxOps = 3  Direct = FALSE  Trust = FALSE
INVARIANTS Recovers CacheEnough AtMostOneDownload NoSilentDownload OnlyWholeAnswers CacheKept Summary
CHECK_DEADLOCK FALSE
