INIT Init
NEXT Next
CONSTANTS
  F = {"H", "D", "W-MON", "W-SUN", "MS", "M", "QS", "Q", "YS", "Y"}
  Bases = {18256, 18320, 18993}
  Times = {0, 630}
  MaxLen = 4
  Years = {10001, 110010, 10002, 10004, 70002, 10012, 10100, 10365, 10700}
INVARIANTS DetectInv KnownInv GridInv CoverInv NoRepeat FillInv CivilInv
