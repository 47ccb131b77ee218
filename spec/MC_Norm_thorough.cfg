INIT Init
NEXT Next
CONSTANT NRows = 4
INVARIANTS NormInv FromMondayInv WeekdayInv OrderInv LabelInv

