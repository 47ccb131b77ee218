---------------------------- MODULE MC_Calendar -----------------------------
(***************************************************************************)
(* A walk through the days of LastYear - FirstYear + 1 years: the calendar *)
(* arithmetic, the holiday rules and the seasonal models agree with the    *)
(* day by day definition of dates.                                         *)
(***************************************************************************)
EXTENDS Models
CONSTANTS FirstYear, LastYear

VARIABLES n, ymd, wd, seen
vars == <<n, ymd, wd, seen>>

Init == /\ n = DayNum(FirstYear, 1, 1) /\ ymd = <<FirstYear, 1, 1>>
        /\ wd = Weekday(n) /\ seen = [uk |-> 0, ita |-> 0, us |-> 0]

Days(m, leap) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF leap THEN 29 ELSE 28)
                   [] OTHER -> 31
Count1(g) == IF g THEN 1 ELSE 0
HitU(d) == Hits(ChristmasUK, d) \/ Hits(BankUK, d)
HitI(d) == Hits(ChristmasIta, d) \/ Hits(BankIta, d)
Tomorrow(v) == /\ n' = n + 1 /\ ymd' = v /\ wd' = (wd + 1) % 7
NewDay == LET y == ymd[1] m == ymd[2] d == ymd[3] IN
  /\ d < Days(m, IsLeap(y))
  /\ Tomorrow(<<y, m, d + 1>>)
  /\ seen' = [uk |-> seen.uk + Count1(HitU(n)), ita |-> seen.ita + Count1(HitI(n)),
              us |-> seen.us + Count1(Hits(HolidaysUS, n))]
NewMonth == LET y == ymd[1] m == ymd[2] d == ymd[3] IN
  /\ d = Days(m, IsLeap(y)) /\ m < 12
  /\ Tomorrow(<<y, m + 1, 1>>)
  /\ seen' = [uk |-> seen.uk + Count1(HitU(n)), ita |-> seen.ita + Count1(HitI(n)),
              us |-> seen.us + Count1(Hits(HolidaysUS, n))]
NewYear == LET y == ymd[1] m == ymd[2] d == ymd[3] IN
  /\ d = 31 /\ m = 12 /\ y < LastYear
  /\ Tomorrow(<<y + 1, 1, 1>>)
  /\ seen' = [uk |-> 0, ita |-> 0, us |-> 0]
Next == NewDay \/ NewMonth \/ NewYear

DateInv == /\ Civil(n) = ymd /\ DayNum(ymd[1], ymd[2], ymd[3]) = n
           /\ Weekday(n) = wd
           /\ IsMonthStart(n) = (ymd[3] = 1)
           /\ IsMonthEnd(n) = (ymd[3] = Days(ymd[2], IsLeap(ymd[1])))
           /\ MonthLen(ymd[1], ymd[2]) = Days(ymd[2], IsLeap(ymd[1]))
EasterInv == LET e == Easter(ymd[1]) IN
  /\ Weekday(e) = 6 /\ DayNum(ymd[1], 3, 22) <= e /\ e <= DayNum(ymd[1], 4, 25)
\* Every bank holiday of the United Kingdom is a working day; there are at
\* most one of each kind in a year
HolidayInv ==
  /\ HitU(n) => wd \in 0..4
  /\ (HitU(n) /\ wd \in 1..3) => ymd[2] \in {1, 12}
  /\ Hits(HolidaysUS, n) => wd \in 0..4
  /\ seen.uk <= 8 /\ seen.us <= 12 /\ seen.ita <= 12
\* The yearly model repeats every 1461 days, and every quarter of it is
\* related to the first
FourierInv ==
  \A k \in {1, 2, 5, 10} :
    LET f == SinCos((4 * k * n) % 1461, 1461)
        g == SinCos((4 * k * (n + 1461)) % 1461, 1461)
        h == SinCos((-4 * k * n) % 1461, 1461)
    IN /\ f = g
       /\ Abs(f[1] * f[1] + f[2] * f[2] - Q * Q) <= 8 * Q
       /\ Abs(h[1] + f[1]) <= 4 /\ Abs(h[2] - f[2]) <= 4
=============================================================================
