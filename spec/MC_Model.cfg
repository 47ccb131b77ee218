INIT Init
NEXT Next
CONSTANTS
  Times <- TimesRing
  Depth = 2
INVARIANTS PoolInv HomInv RoleInv AssocInv FixInv GuessInv UnionInv
PROPERTY Kept
