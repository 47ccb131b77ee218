INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxN = 4
 YVals = {0, 2, 5}
 Gaps = {0, 1, 2}
 X0s = {0, 3}
 Kinds = {"linear", "nondec", "sigmoid_step", "ramp", "step"}
 MaxLeaves = 2
INVARIANTS Counts Inside Room Signed RampInside Gen
