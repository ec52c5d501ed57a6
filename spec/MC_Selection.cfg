SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 Cands = {1, 2}
 Shares = FALSE
 SrcLabels = {1}
 TgtLabels <- Targets
INVARIANTS
 OwnFold
 Unseen
 NoTargetLabel
 ChosenIsBest
 FinalSeesAll
 Partition
