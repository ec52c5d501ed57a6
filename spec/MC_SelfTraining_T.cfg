CONSTANTS NS = 3
 NT = 3
 Ks = {1, 2}
 MaxRounds = 4
 Values <- Vals
 Feats = {0, 1, 3, 5, 6}
 Labs = {0, 1, 2, 5}
 JN = 3
SPECIFICATION Spec
INVARIANTS SourceNeverReturns BoundedExchange LabelsCurrent EndsForAReason RemovesAll Descent LossPerRound OnePass
PROPERTY Monotone
CHECK_DEADLOCK FALSE
