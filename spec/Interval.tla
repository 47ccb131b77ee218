------------------------------ MODULE Interval ------------------------------
(***************************************************************************)
(* Prediction intervals by bootstrapped residuals.                         *)
(*                                                                         *)
(* Rows of the table of one source: [t, y, act, best, w, nm], y and w      *)
(* optional; w is Some(1) in tables without weights, best TRUE in tables   *)
(* without that column.                                                    *)
(***************************************************************************)
EXTENDS Freq

Usable(R) == Filter(R, LAMBDA r : r.act /\ IsSome(r.y) /\ IsSome(r.w) /\ Get(r.w) > 0)
Actuals(R) == Filter(R, LAMBDA r : r.act /\ IsSome(r.y))
Forecasts(R) == SortBy(LAMBDA r : r.t, Filter(R, LAMBDA r : ~r.act /\ r.best))

\* Residuals: every usable actual against the forecast of its date
Residuals(R) ==
  LET f == Mat(Filter(Forecasts(R), LAMBDA r : IsSome(r.y)))
      u == Mat(Usable(R))
      pairs == Filter([i \in 1..(Len(u) * Len(f)) |->
                        <<((i - 1) \div Len(f)) + 1, ((i - 1) % Len(f)) + 1>>],
                      LAMBDA p : u[p[1]].t = f[p[2]].t)
  IN Mat([i \in 1..Len(pairs) |-> Get(u[pairs[i][1]].y) - Get(f[pairs[i][2]].y)])

\* ... minus their mean, times their number
Centred(res) == LET n == Len(res) s == SumSeq(res)
                IN Mat([i \in 1..n |-> n * res[i] - s])

\* Samples after which the interval widens, for a period of so many days
DaysOf(f) == CASE f \in {"YS", "Y"} -> 365
               [] f \in {"QS", "Q"} -> 91
               [] f \in {"MS", "M"} -> 30
               [] IsWeekly(f) -> 7
               [] OTHER -> 1
Period(days, dated, R) ==
  LET f == DetectFreq({r.t : r \in {q \in Range(R) : q.act \/ q.best}})
  IN IF ~dated THEN Max2(1, days)
     ELSE IF f = "H" THEN 24 * days
     ELSE Max2(1, days \div DaysOf(f))

\* Number of accumulated residuals at the i-th forecast row after the last
\* usable actual (i from 1); rows up to it have none
Accumulated(i, period) == ((i - 1) \div period) + 1

(***************************************************************************)
(* Distribution of the sum of independent draws: a function from sums to   *)
(* the number of outcomes.                                                 *)
(***************************************************************************)
Dist1(c) == Mat2([v \in Range(c) |-> Count(c, v)])
Convolve(d, e) ==
  LET S == {a + b : a \in DOMAIN d, b \in DOMAIN e}
  IN Mat2([s \in S |-> LET A == {a \in DOMAIN d : (s - a) \in DOMAIN e}
                           RECURSIVE sum(_)
                           sum(T) == IF T = {} THEN 0
                                     ELSE LET a == CHOOSE x \in T : TRUE
                                          IN d[a] * e[s - a] + sum(T \ {a})
                       IN sum(A)])
DistN(c, k) == \* k >= 1 draws
  LET one == Dist1(c)
      f[i \in 1..k] == IF i = 1 THEN one ELSE Convolve(f[i-1], one)
  IN f[k]
Total(n, k) == n ^ k
Below(d, Ok(_)) == \* outcomes whose sum satisfies Ok
  LET S == {s \in DOMAIN d : Ok(s)}
      RECURSIVE sum(_)
      sum(T) == IF T = {} THEN 0
                ELSE LET a == CHOOSE x \in T : TRUE IN d[a] + sum(T \ {a})
  IN sum(S)

(***************************************************************************)
(* Is v (in units of 1/U, precise to 2 units) a possible p-percentile of   *)
(* a large sample of d, whose empirical distribution is within eps/1000    *)
(* of the true one ?  n: number of residuals, k: number of draws.          *)
(***************************************************************************)
U == 10000
Feasible(n, k) == \* exact distributions with few outcomes
  n = 1 \/ k = 1 \/ (k = 2 /\ n <= 20) \/ (k <= 4 /\ n <= 6) \/ (k <= 6 /\ n <= 3)
  \/ (k <= 15 /\ n = 2)
IsQuantile(d, n, k, v, p, eps) ==
  LET tot == Total(n, k)
      lo == Below(d, LAMBDA s : s * U <= v * n + 2 * n)
      hi == Below(d, LAMBDA s : s * U < v * n - 2 * n)
  IN /\ lo * 1000 >= tot * (10 * p - eps)
     /\ hi * 1000 <= tot * (10 * p + eps)

\* Bounds of the sum of k draws
InSupport(c, k, v) ==
  LET n == Len(c) IN
  /\ v * n + 2 * n >= k * MinS(Range(c)) * U
  /\ v * n - 2 * n <= k * MaxS(Range(c)) * U
=============================================================================
