INIT Init
NEXT Next
CONSTANT Full = FALSE
INVARIANTS DoneInv MonotoneInv KindInv
