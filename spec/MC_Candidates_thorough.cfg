INIT Init
NEXT Next
CONSTANT Full = TRUE
INVARIANTS DoneInv MonotoneInv KindInv
