------------------------------ MODULE Calendar -----------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar on days since 1970-01-01, and the      *)
(* holiday rules of the predefined calendars.                              *)
(***************************************************************************)
EXTENDS Prelude

\* <<year, month, day>> of a day number
Civil(n) ==
  LET z == n + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400
  IN <<IF m <= 2 THEN y + 1 ELSE y, m, d>>

\* Day number of a date
DayNum(yy, m, d) ==
  LET y == IF m <= 2 THEN yy - 1 ELSE yy
      era == y \div 400
      yoe == y - era * 400
      mp == IF m > 2 THEN m - 3 ELSE m + 9
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468

Year(n) == Civil(n)[1]
Month(n) == Civil(n)[2]
DayOfMonth(n) == Civil(n)[3]

\* 0 = Monday ... 6 = Sunday
Weekday(n) == (n + 3) % 7
MondayOf(n) == n - Weekday(n)

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == DayNum(IF m = 12 THEN y + 1 ELSE y, IF m = 12 THEN 1 ELSE m + 1, 1)
                  - DayNum(y, m, 1)
IsMonthEnd(n) == DayOfMonth(n + 1) = 1
IsMonthStart(n) == DayOfMonth(n) = 1

\* The k-th (k > 0) weekday w on or after a day, the last one on or before it
NthWeekdayFrom(n, w, k) == n + ((w - Weekday(n)) % 7) + 7 * (k - 1)
LastWeekdayUpTo(n, w) == n - ((Weekday(n) - w) % 7)

\* Western Easter Sunday (anonymous Gregorian computus)
Easter(y) ==
  LET a == y % 19
      b == y \div 100
      c == y % 100
      d == b \div 4
      e == b % 4
      f == (b + 8) \div 25
      g == (b - f + 1) \div 3
      h == (19 * a + b - d - g + 15) % 30
      i == c \div 4
      k == c % 4
      L == (32 + 2 * e + 2 * i - h - k) % 7
      m == (a + 11 * h + 22 * L) \div 451
      mon == (h + L - 7 * m + 114) \div 31
      dy == ((h + L - 7 * m + 114) % 31) + 1
  IN DayNum(y, mon, dy)

\* Weekend shifts of fixed holidays
NextMonday(n) == CASE Weekday(n) = 5 -> n + 2 [] Weekday(n) = 6 -> n + 1
                   [] OTHER -> n
NearestWorkday(n) == CASE Weekday(n) = 5 -> n - 1 [] Weekday(n) = 6 -> n + 1
                       [] OTHER -> n
\* For the second of two adjacent holidays
NextMondayOrTuesday(n) ==
  CASE Weekday(n) \in {5, 6} -> n + 2 [] Weekday(n) = 0 -> n + 1
    [] OTHER -> n

(***************************************************************************)
(* Holidays of a year.  The predefined models have one parameter for       *)
(* Christmas and New Year and one for the other bank holidays (UK, Italy), *)
(* or one for all of them (US).                                            *)
(***************************************************************************)
ChristmasUK(y) == {NextMonday(DayNum(y, 1, 1)), NextMonday(DayNum(y, 12, 25)),
                   NextMondayOrTuesday(DayNum(y, 12, 26))}
BankUK(y) == {Easter(y) - 2, Easter(y) + 1,
              NthWeekdayFrom(DayNum(y, 5, 1), 0, 1),
              LastWeekdayUpTo(DayNum(y, 5, 31), 0),
              LastWeekdayUpTo(DayNum(y, 8, 30), 0)}
ChristmasIta(y) == ChristmasUK(y) \cup {NextMonday(DayNum(y, 1, 6))}
BankIta(y) == {Easter(y) + 1, DayNum(y, 4, 25), DayNum(y, 5, 1),
               DayNum(y, 6, 2), DayNum(y, 8, 15), DayNum(y, 11, 1),
               DayNum(y, 12, 8)}
HolidaysUS(y) ==
  {NearestWorkday(DayNum(y, 1, 1)),
   NthWeekdayFrom(DayNum(y, 2, 1), 0, 3),
   LastWeekdayUpTo(DayNum(y, 5, 31), 0),
   NearestWorkday(DayNum(y, 7, 4)),
   NthWeekdayFrom(DayNum(y, 9, 1), 0, 1),
   NthWeekdayFrom(DayNum(y, 10, 1), 0, 2),
   NearestWorkday(DayNum(y, 11, 11)),
   NthWeekdayFrom(DayNum(y, 11, 1), 3, 4),
   NearestWorkday(DayNum(y, 12, 25))}
  \cup (IF y >= 1986 THEN {NthWeekdayFrom(DayNum(y, 1, 1), 0, 3)} ELSE {})
  \cup (IF y >= 2021 THEN {NearestWorkday(DayNum(y, 6, 19))} ELSE {})

\* (a holiday is observed within a week of its date)
Hits(H(_), n) == \E y \in {Year(n - 7), Year(n), Year(n + 7)} : n \in H(y)

\* The groups of holidays (one per parameter) of a predefined calendar model
CalendarHits(name, n) ==
  CASE name = "calendar_uk" -> <<Hits(ChristmasUK, n), Hits(BankUK, n)>>
    [] name = "calendar_ita" -> <<Hits(ChristmasIta, n), Hits(BankIta, n)>>
    [] name = "calendar_us" -> <<Hits(HolidaysUS, n)>>
=============================================================================
