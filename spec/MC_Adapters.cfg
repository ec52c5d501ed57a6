CONSTANTS N = 4
 DomLabels <- Labs
SPECIFICATION Spec
INVARIANTS InPlace Equivariant WeightsFollow WeightsCount MatchFollows MatchTotal
CHECK_DEADLOCK FALSE
