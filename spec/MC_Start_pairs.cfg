INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxN = 4
 YVals = {0, 5}
 Gaps = {0, 1, 2}
 X0s = {0}
 Kinds = {"nondec", "sigmoid_step", "ramp"}
 MaxLeaves = 2
INVARIANTS Counts Inside Room Signed RampInside Gen
