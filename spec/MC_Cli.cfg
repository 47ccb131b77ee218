INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxRuns = 2
 NProcs = 1
 Opts = {"1", "2"}
 Formats = {"png", "html", "bmp"}
 Crashes = FALSE
 Emit = TRUE
INVARIANTS Refines InputsKept OneFileOfAName Genuine Independent Idempotent Gen
