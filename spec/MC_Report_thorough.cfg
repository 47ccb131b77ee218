INIT Init
NEXT Next
CONSTANTS
  Slots = 4
  Origin = "used"
CHECK_DEADLOCK FALSE
INVARIANTS CostInv OptInv RowInv RangeInv DividesInv
