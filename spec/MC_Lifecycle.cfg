CONSTANTS Objs = {1, 2}
Params = {1, 2}
Data = {1, 2}
MaxOps = 5
CloneNested = TRUE
ResetInFit = TRUE
CopyData = TRUE
CopyOnClone = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FreshAnswers SettingsKept CallerIntact NestedIntact
