SPECIFICATION Spec
CONSTANT NAN <- Nan
CHECK_DEADLOCK FALSE
