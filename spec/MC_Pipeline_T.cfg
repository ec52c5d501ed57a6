CONSTANTS MaxSteps = 3
 N = 4
 DomLabels <- DomLabels4
 Menu <- MenuQ
SPECIFICATION Spec
INVARIANTS NonInterference Aligned NoRowTwice UnawareSeesNoMask TransformersSeeAll GroupsExact Container
CHECK_DEADLOCK FALSE
