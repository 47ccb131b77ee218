SPECIFICATION Spec
CONSTANTS
  Slots = 2
  Second <- SecondQuick
  Starts <- StartsQuick
INVARIANTS OnceInv BestInv TruthInv EraseInv InnerInv RouteInv
PROPERTY Ends
