CONSTANTS MaxSteps = 2
 N = 3
 DomLabels <- DomLabels3
 Menu <- MenuQ
SPECIFICATION Spec
INVARIANTS NonInterference Aligned NoRowTwice UnawareSeesNoMask TransformersSeeAll GroupsExact Container
CHECK_DEADLOCK FALSE
