INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxRows = 4
 Names = {"b", "a", "c"}
 MaxT = 2
 MaxSeries = 17
INVARIANTS Matches InGrid Compact Complete Bounds2 Gen
