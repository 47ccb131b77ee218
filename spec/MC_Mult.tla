------------------------------- MODULE MC_Mult ------------------------------
(***************************************************************************)
(* Design of the choice of composition: a straight line of slope b with,   *)
(* in each month, noise of some size around it (blocks d, -2d, d keep the  *)
(* line the least squares fit); statistics are accumulated month by month. *)
(***************************************************************************)
EXTENDS Mult, Json

CONSTANTS Sizes, NMonths, Slopes, Level, Lasts

VARIABLES R, line, done, sums
vars == <<R, line, done, sums>>

Day1 == DayNum(2019, 1, 1)
Starts(n) == [i \in 1..n |-> AddMonths(Day1, i - 1, FALSE)]
\* six days of each month, plus single days of the month after
Series(z, b, tail) ==
  LET n == Len(z) s == Starts(n + 1)
      d(i) == i - Day1
      row(day, r) == [t |-> day * DAY, x |-> d(day), y |-> Some(Level + b * d(day) + r),
                      w |-> Some(1)]
      blk(i) == << row(s[i], z[i]), row(s[i] + 1, -2 * z[i]), row(s[i] + 2, z[i]),
                   row(s[i] + 10, -z[i]), row(s[i] + 13, 2 * z[i]), row(s[i] + 16, -z[i])>>
      RECURSIVE cat(_)
      cat(i) == IF i > n THEN <<>> ELSE blk(i) \o cat(i + 1)
  IN cat(1) \o (CASE tail = "none" -> <<>>
                  [] tail = "single" -> <<row(s[n+1], 0)>>
                  [] tail = "ignored" ->
                       <<[row(s[n+1], 50) EXCEPT !.w = None],
                         [row(s[n+1] + 1, -999) EXCEPT !.w = Some(0)],
                         [row(s[n+1] + 2, 0) EXCEPT !.y = None]>>
                  [] tail = "zero" ->
                       <<row(s[n+1], 0), [row(s[n+1] + 1, 0) EXCEPT !.y = Some(0)]>>)

Init ==
  \E n \in 1..NMonths : \E z \in [1..n -> Sizes] : \E b \in Slopes, tail \in Lasts :
    /\ R = Mat(Series(z, b, tail)) /\ line = <<Level, b>>
    /\ done = 0 /\ sums = <<>>

Q == Mat(Used(R))
Take == \* rows one by one into the statistics of their month
  /\ done < Len(Q) /\ done >= 0
  /\ done' = done + 1
  /\ LET k == MonthKey(Q[done + 1].t)
         v == Get(Q[done + 1].y)
         r == Res(Q[done + 1], line)
         e == [k |-> k, n |-> 1, y |-> v, r |-> r, rr |-> r * r]
     IN sums' = IF sums # <<>> /\ Last(sums).k = k
                THEN [sums EXCEPT ![Len(sums)] =
                        [k |-> k, n |-> @.n + 1, y |-> @.y + v, r |-> @.r + r,
                         rr |-> @.rr + r * r]]
                ELSE Append(sums, e)
  /\ UNCHANGED <<R, line>>
Decide ==
  /\ done = Len(Q) /\ done' = -1
  /\ PrintT("@@SCN " \o ToJson([R |-> R, line |-> line]))
  /\ UNCHANGED <<R, line, sums>>
Next == Take \/ Decide
Over == done = -1

Out == Composition(R, TRUE, line)
\* months of one row have no variance and do not count
SumsInv == Over =>
  LET s == Filter(sums, LAMBDA x : x.n >= 2) IN
  Months(Q, line) = [i \in 1..Len(s) |-> [n |-> s[i].n, y |-> s[i].y, r |-> s[i].r, rr |-> s[i].rr]]
FitInv == Over /\ (\A i \in 1..Len(Q) : Get(Q[i].y) # 0) => IsFit(Q, line)
\* the exceptions
ExceptInv == Over =>
  /\ Composition(R, FALSE, line) = "add"
  /\ (\E i \in 1..Len(Q) : Get(Q[i].y) <= 0) => Out = "add"
  /\ Len(Q) < 12 => Out = "add"
\* ignored rows play no role
IgnoreInv == Over => Composition(Q, TRUE, line) = Out
\* the unit of the values plays no role
Scaled == [i \in 1..Len(R) |-> IF R[i].y = None THEN R[i]
                               ELSE [R[i] EXCEPT !.y = Some(2 * Get(@))]]
UnitInv == Over => LET o == Composition(Scaled, TRUE, <<2 * line[1], 2 * line[2]>>)
                   IN o = Out \/ o = "open" \/ Out = "open"
\* noise of constant size, or that shrinks while the series grows, is additive
MonthsOf == Months(Q, line)
ConstInv == Over /\ ~Excluded(Q, TRUE) /\ Len(MonthsOf) >= 2 /\ line[2] > 0
            /\ (\A i \in 1..(Len(MonthsOf) - 1) : MonthsOf[i].rr >= MonthsOf[i+1].rr) =>
  Out # "mult"
\* noise that grows evenly with the series is multiplicative
GrowInv == Over /\ ~Excluded(Q, TRUE) /\ Len(MonthsOf) >= 2 /\ line[2] > 0
           /\ (\A i \in 1..(Len(MonthsOf) - 1) :
                 MonthsOf[i+1].rr - MonthsOf[i].rr = MonthsOf[2].rr - MonthsOf[1].rr)
           /\ MonthsOf[2].rr > MonthsOf[1].rr =>
  Out # "add"
=============================================================================
