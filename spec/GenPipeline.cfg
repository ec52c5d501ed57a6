CONSTANT WithPairs = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
