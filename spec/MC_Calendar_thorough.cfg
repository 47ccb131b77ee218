INIT Init
NEXT Next
CONSTANTS
  FirstYear = 1971
  LastYear = 2099
INVARIANTS DateInv EasterInv HolidayInv FourierInv
