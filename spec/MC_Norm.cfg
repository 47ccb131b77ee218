INIT Init
NEXT Next
CONSTANT NRows = 3
INVARIANTS NormInv FromMondayInv WeekdayInv OrderInv LabelInv

