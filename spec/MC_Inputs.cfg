INIT Init
NEXT Next
CONSTANTS
  MaxInputs = 2
  Skip = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS ConcatInv IndependentInv AssocInv
