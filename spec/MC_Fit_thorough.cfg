INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxN = 4
 Models_ = {"constant", "linear", "step", "dummy", "wday+constant", "fix"}
 Ys = {0, 2}
 Ws = {1, 2}
 MaxX = 2
 Pmax = 2
INVARIANTS Minimises Ties Invariances Halves Gen
