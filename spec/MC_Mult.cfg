INIT Init
NEXT Next
CONSTANTS Sizes = {0, 1, 2, 5}
          NMonths = 4
          Slopes = {0, 1, 2}
          Level = 100
          Lasts = {"none", "single", "ignored", "zero"}
INVARIANTS SumsInv FitInv ExceptInv IgnoreInv UnitInv ConstInv GrowInv
