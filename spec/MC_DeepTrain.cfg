SPECIFICATION Spec
CONSTANTS N = 3
  MaxFits = 2
  MaxEpochs = 2
  BadReset = FALSE
  BadLeak = FALSE
INVARIANTS NoLeak Counts BankOnlySeen Partition
CHECK_DEADLOCK FALSE
