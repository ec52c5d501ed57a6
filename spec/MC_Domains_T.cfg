CONSTANTS MaxN = 5
 Labels <- Labels5
 NAN <- Nan
SPECIFICATION Spec
INVARIANTS RoundTrip NothingLost Partition FillExact ValidateSane DeriveSane
CHECK_DEADLOCK FALSE
