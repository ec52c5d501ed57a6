SPECIFICATION Spec
CONSTANTS
 MaxOps = 3
 Rule = "free"
 NAN <- Nan
INVARIANTS UniqueNames EveryDomainKept PackFacts
PROPERTY IdsStable
CHECK_DEADLOCK FALSE
