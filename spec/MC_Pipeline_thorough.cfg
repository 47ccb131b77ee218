SPECIFICATION Spec
CONSTANTS
  Slots = 3
  Second <- SecondFull
  Starts <- StartsQuick
INVARIANTS OnceInv BestInv TruthInv EraseInv InnerInv RouteInv
PROPERTY Ends
