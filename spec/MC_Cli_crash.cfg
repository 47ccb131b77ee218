INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxRuns = 2
 NProcs = 2
 Opts = {"1"}
 Formats = {"png"}
 Crashes = TRUE
 Emit = FALSE
INVARIANTS Refines InputsKept OneFileOfAName Genuine Independent Idempotent Gen
