------------------------------- MODULE Freq --------------------------------
(***************************************************************************)
(* Sampling frequency of a series and the grid of dates it implies.        *)
(* Instants are minutes since 1970-01-01.                                  *)
(***************************************************************************)
EXTENDS Calendar

DAY == 1440
DayOf(t) == t \div DAY
TimeOf(t) == t % DAY

WeekdayNames == <<"W-MON", "W-TUE", "W-WED", "W-THU", "W-FRI", "W-SAT", "W-SUN">>
WeeklyOn(n) == WeekdayNames[Weekday(n) + 1]
IsWeekly(f) == f \in Range(WeekdayNames)
Freqs == {"H", "D", "MS", "M", "QS", "Q", "YS", "Y"} \cup Range(WeekdayNames)

\* Smallest distance of two different elements (S has at least two)
MinDelta(s) == \* s: strictly increasing sequence
  MinS({s[i+1] - s[i] : i \in 1..(Len(s) - 1)})

\* The frequency of a set of instants, "" if there is none
DetectFreq(S) ==
  IF Cardinality(S) < 2 THEN ""
  ELSE LET s == SetToSorted(S)
           d == MinDelta(s)
           n == {DayOf(t) : t \in S}
       IN CASE d = 60 -> "H"
            [] d = 7 * DAY -> WeeklyOn(DayOf(s[1]))
            [] d \in (28 * DAY)..(31 * DAY) ->
                 IF \A x \in n : IsMonthStart(x) THEN "MS" ELSE "M"
            [] d \in (89 * DAY)..(92 * DAY) ->
                 IF \A x \in n : IsMonthStart(x) /\ Month(x) \in {1, 4, 7, 10}
                 THEN "QS" ELSE "Q"
            [] d \in (365 * DAY)..(366 * DAY) ->
                 IF \A x \in n : IsMonthStart(x) /\ Month(x) = 1
                 THEN "YS" ELSE "Y"
            [] OTHER -> IF d >= 23 * 60 THEN "D" ELSE ""

\* Is the instant on the grid that frequency f has through instant t0 ?
OnGrid(f, t0, t) ==
  /\ f # "H" => TimeOf(t) = TimeOf(t0)
  /\ LET n == DayOf(t) IN
     CASE f = "H" -> (t - t0) % 60 = 0
       [] f = "D" -> TRUE
       [] IsWeekly(f) -> f = WeeklyOn(n)
       [] f = "MS" -> IsMonthStart(n)
       [] f = "M" -> IsMonthEnd(n)
       [] f = "QS" -> IsMonthStart(n) /\ Month(n) \in {1, 4, 7, 10}
       [] f = "Q" -> IsMonthEnd(n) /\ Month(n) \in {3, 6, 9, 12}
       [] f = "YS" -> IsMonthStart(n) /\ Month(n) = 1
       [] f = "Y" -> IsMonthEnd(n) /\ Month(n) = 12
       [] OTHER -> FALSE

\* The grid point after grid point t
AddMonths(n, k, end) ==
  LET c == Civil(n)
      m0 == ((c[2] - 1 + k) % 12) + 1
      y0 == c[1] + (c[2] - 1 + k) \div 12
  IN DayNum(y0, m0, IF end THEN MonthLen(y0, m0) ELSE 1)

NextPoint(f, t) ==
  LET n == DayOf(t)
      at(m) == m * DAY + TimeOf(t)
  IN CASE f = "H" -> t + 60
       [] f = "D" -> t + DAY
       [] IsWeekly(f) -> t + 7 * DAY
       [] f = "MS" -> at(AddMonths(n, 1, FALSE))
       [] f = "M" -> at(AddMonths(n, 1, TRUE))
       [] f = "QS" -> at(AddMonths(n, 3, FALSE))
       [] f = "Q" -> at(AddMonths(n, 3, TRUE))
       [] f = "YS" -> at(AddMonths(n, 12, FALSE))
       [] f = "Y" -> at(AddMonths(n, 12, TRUE))

PointsFrom(f, t, k) == \* k grid points, the first is t
  LET g[i \in 1..k] == IF i = 1 THEN t ELSE NextPoint(f, g[i-1])
  IN [i \in 1..k |-> g[i]]

UnitsPerYear(f) ==
  CASE f = "H" -> 8760
    [] f = "D" -> 365
    [] f \in {"MS", "M"} -> 12
    [] f \in {"QS", "Q"} -> 4
    [] f \in {"YS", "Y"} -> 1
    [] OTHER -> 52

\* Samples after the last actual, for p/q years
Horizon(f, p, q) == (p * UnitsPerYear(f)) \div q
NumericHorizon(p, q) == (100 * p) \div q

\* Frequency used for a forecast that starts at t0
UsedFreq(f, t0) == IF f = "" THEN WeeklyOn(DayOf(t0)) ELSE f

\* Is g (a sequence of instants) the forecast grid of frequency f that starts
\* at t0, has its last actual at t1 and a horizon of k samples ?
IsGrid(f, t0, t1, k, g) ==
  /\ Len(g) >= 1
  /\ g[1] = t0
  /\ \A i \in 1..(Len(g) - 1) : g[i+1] = NextPoint(f, g[i])
  /\ Cardinality({i \in 1..Len(g) : g[i] > t1}) = k
  /\ NextPoint(f, Last(g)) > t1

\* Days from the Monday of the week of the first listed date
XOfDate(t, tfirst) == (t - MondayOf(DayOf(tfirst)) * DAY - TimeOf(tfirst)) \div DAY

(***************************************************************************)
(* Gap filling.  A row is [t |-> instant or numeric index, x |-> index,    *)
(* y |-> optional value].  Rows are in increasing order of t.              *)
(***************************************************************************)
Diffs(s) == [i \in 1..(Len(s) - 1) |-> s[i+1] - s[i]]

Regular(dated, ts) == \* distinct instants ts
  LET d == Range(Diffs(ts))
  IN /\ Cardinality(d) <= 1
     /\ ~(dated /\ d # {} /\ DetectFreq(Range(ts)) = "D" /\ \A v \in d : v > DAY)

\* Grid on which gaps are filled
FillGrid(dated, ts) ==
  LET f == DetectFreq(Range(ts))
      RECURSIVE walk(_, _)
      walk(acc, t) == IF t > Last(ts) THEN acc
                      ELSE walk(Append(acc, t),
                                IF dated THEN NextPoint(f, t) ELSE t + 1)
  IN walk(<<>>, ts[1])

\* Linear interpolation by position at index i between the known indices
\* a < i < b, as a fraction <<num, den>>
Interp(va, vb, a, i, b) == <<va * (b - i) + vb * (i - a), b - a>>
=============================================================================
