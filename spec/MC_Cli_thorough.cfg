INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxRuns = 3
 NProcs = 1
 Opts = {"1"}
 Formats = {"png", "bmp"}
 Crashes = FALSE
 Emit = TRUE
INVARIANTS Refines InputsKept OneFileOfAName Genuine Independent Idempotent Gen
