CONSTANTS MaxN = 4
 Labels <- Labels4
 NAN <- Nan
SPECIFICATION Spec
INVARIANTS RoundTrip NothingLost Partition FillExact ValidateSane DeriveSane
CHECK_DEADLOCK FALSE
