CONSTANTS N = 5
 DomLabels <- Labs
SPECIFICATION Spec
INVARIANTS InPlace Equivariant WeightsFollow WeightsCount MatchFollows MatchTotal
CHECK_DEADLOCK FALSE
