SPECIFICATION Spec
CONSTANTS N = 3
  MaxFits = 3
  MaxEpochs = 3
  BadReset = FALSE
  BadLeak = FALSE
INVARIANTS NoLeak Counts BankOnlySeen Partition
CHECK_DEADLOCK FALSE
