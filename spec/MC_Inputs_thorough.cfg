INIT Init
NEXT Next
CONSTANTS
  MaxInputs = 3
  Skip = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS ConcatInv IndependentInv AssocInv
