CONSTANTS NS = 2
 NT = 3
 Ks = {1, 2}
 MaxRounds = 3
 Values <- Vals
 Feats = {0, 3, 5}
 Labs = {0, 2, 5}
 JN = 3
SPECIFICATION Spec
INVARIANTS SourceNeverReturns BoundedExchange LabelsCurrent EndsForAReason RemovesAll Descent LossPerRound OnePass
PROPERTY Monotone
CHECK_DEADLOCK FALSE
