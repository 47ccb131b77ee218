INIT Init
NEXT Next
CONSTANTS
  FirstYear = 2008
  LastYear = 2030
INVARIANTS DateInv EasterInv HolidayInv FourierInv
