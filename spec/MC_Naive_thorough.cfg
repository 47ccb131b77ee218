INIT Init
NEXT Next
CONSTANTS
  Vals = {3, 8}
  N = 6
  Step = 4320
INVARIANTS NaiveInv SnaiveInv FutureInv IgnoreInv
