INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxRows = 5
 Names = {"b", "a", "c"}
 MaxT = 2
 MaxSeries = 40
INVARIANTS Matches InGrid Compact Complete Bounds2 Gen
