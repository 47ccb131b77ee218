INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxN = 5
 YVals = {0, 5}
 Gaps = {0, 1, 2}
 X0s = {0}
 Kinds = {"linear", "nondec", "sigmoid_step", "ramp", "season_month", "step"}
 MaxLeaves = 1
INVARIANTS Counts Inside Room Signed RampInside Gen
