SPECIFICATION Spec
CONSTANTS
 MaxN = 4
 ZeroRule = "fresh"
INVARIANTS RolesSwapped LabelsRenamed ScoredInOriginalLabels NeverStuck
CHECK_DEADLOCK FALSE
