SPECIFICATION Spec
CONSTANTS
 MaxN = 5
 ZeroRule = "fresh"
INVARIANTS RolesSwapped LabelsRenamed ScoredInOriginalLabels NeverStuck
CHECK_DEADLOCK FALSE
