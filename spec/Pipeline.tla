------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* What a forecast call returns: which samples of a source are used, which *)
(* candidate models are tried on them, with what status, error and error   *)
(* criterion, which one is chosen, and which rows the tables hold.         *)
(*                                                                         *)
(* A row of the input is [s, t, x, y, w]: source (a number), instant in    *)
(* minutes (equal to x in series without dates), x, optional value and     *)
(* optional weight (an integer).                                           *)
(***************************************************************************)
EXTENDS Models, Naive

(***************************************************************************)
(* Samples                                                                 *)
(***************************************************************************)
W(r) == IF IsSome(r.w) THEN Get(r.w) ELSE 0
OfSource(rows, s) == Filter(rows, LAMBDA r : r.s = s)
Sources(rows) == {r.s : r \in Range(rows)}
From(rows, start) ==
  IF IsSome(start) THEN Filter(rows, LAMBDA r : r.t >= Get(start)) ELSE rows
Weighted(R) == Filter(R, LAMBDA r : W(r) > 0)
UsableRows(R) == Filter(R, LAMBDA r : W(r) > 0 /\ IsSome(r.y))

Ts(R) == {r.t : r \in Range(R)}
SpanOf(T) == IF T = {} THEN 0 ELSE MaxS(T) - MinS(T)
\* Smallest spacing, 0 if there are less than two instants
SpacingOf(T) == IF Cardinality(T) < 2 THEN 0 ELSE MinDelta(SetToSorted(T))

(***************************************************************************)
(* Candidates                                                              *)
(***************************************************************************)
Linear == Leaf("linear", "linear", <<>>)
Ramp == Leaf("ramp", "ramp", <<>>)
SeasonWday == Leaf("season_wday", "season_wday", <<>>)
SeasonYear == Leaf("season_fourier_yearly", "season_fourier_yearly", <<>>)
NaiveM == Leaf("naive", "naive", <<>>)
SnaiveM == Leaf("snaive", "snaive_wday", <<>>)

AllPairs(op, A, B) == {Compose(op, a, b) : a \in A, b \in B}
GetList(A, B, op) == IF B = {} THEN A ELSE IF A = {} THEN B
                     ELSE AllPairs(op, A, B)
GetLists(A, B, mode) ==
  (IF mode # "mult" THEN GetList(A, B, "add") ELSE {})
  \cup (IF mode # "add" THEN GetList(A, B, "mult") ELSE {})

\* Use of seasonality, given span and spacing in minutes (spacing 0: less
\* than two dates)
UseYearly(span, spacing) ==
  spacing > 0 /\ 2 * span > 3 * 365 * DAY /\ spacing <= 92 * DAY
UseWeekly(span, spacing) ==
  spacing > 0 /\ 2 * span > 3 * 7 * DAY /\ spacing <= DAY
UseCalendar(span, spacing) ==
  spacing > 0 /\ span > 365 * DAY /\ spacing <= DAY
UseRamp(span) == span > 730 * DAY

\* Weekly and yearly models given (None: the default)
Choice(use, given, dflt) ==
  IF ~use THEN {NullM} ELSE IF given = None THEN {dflt, NullM}
  ELSE IF Get(given) = <<>> THEN {NullM} ELSE Range(Get(given))
AutoSeason(op, span, spacing, weekly, yearly) ==
  {NullM} \cup AllPairs(op,
    Choice(UseWeekly(span, spacing), weekly, SeasonWday),
    Choice(UseYearly(span, spacing), yearly, SeasonYear))

\* cfg: [trend, season, weekly, yearly, naive, cal: optional sequences of
\*       terms; mode]
CandidatesIn(cfg, dated, span, spacing, freq, mode) ==
  LET trend == IF IsSome(cfg.trend) THEN Range(Get(cfg.trend))
               ELSE {Linear} \cup (IF dated /\ UseRamp(span)
                                   THEN {Compose("add", Linear, Ramp)} ELSE {})
      season(op) == IF IsSome(cfg.season) THEN Range(Get(cfg.season))
                    ELSE IF dated
                    THEN AutoSeason(op, span, spacing, cfg.weekly, cfg.yearly)
                    ELSE {}
      list(op) == GetList(trend, season(op), op)
      full(op) == IF IsSome(cfg.cal) /\ dated /\ UseCalendar(span, spacing)
                  THEN GetList(list(op), Range(Get(cfg.cal)), op) ELSE list(op)
  IN (IF mode # "mult" THEN full("add") ELSE {})
     \cup (IF mode # "add" THEN full("mult") ELSE {})
NaiveIn(cfg, freq) ==
  IF IsSome(cfg.naive) THEN Range(Get(cfg.naive))
  ELSE IF freq = "D" THEN {SnaiveM} ELSE {NaiveM}

\* in: [dated, start, cfg, ...]; R: all rows of the source
Candidates(in, R) ==
  LET T == Ts(Weighted(From(R, in.start)))
      f == IF in.dated THEN DetectFreq(Ts(R)) ELSE ""
  IN NaiveIn(in.cfg, f) \cup
     CandidatesIn(in.cfg, in.dated, SpanOf(T), SpacingOf(T), f, in.cfg.mode)
Names(C) == {m.nm : m \in C}

(***************************************************************************)
(* Status                                                                  *)
(***************************************************************************)
Holds(check, dated, U) ==
  CASE check = "dates" -> dated
    [] check = "weekdays" -> dated /\ {Weekday(DayOf(r.t)) : r \in Range(U)} = 0..6
    [] check = "positive" -> \A r \in Range(U) : Get(r.y) > 0
    [] check = "x4" -> Cardinality({r.x : r \in Range(U)}) >= 4
    [] check = "c2" -> Len(U) >= 5
    [] check = "c3" -> \E r \in Range(U) : r.x <= 0
    [] check = "never" -> FALSE
\* Leaves that make the solver fail
Fails(m) == SomeLeaf(m, LAMBDA a : a.n = "probe" /\ a.v.fail # 0)
\* Leaves whose fit cannot fail
Tame(m) == ~SomeLeaf(m, LAMBDA a : a.n \notin {"probe", "naive", "snaive", "null"})
PParams(m) == LET RECURSIVE g(_)
                  g(a) == CASE a.k = "leaf" -> IF a.n \in {"naive", "snaive"} THEN 0
                                               ELSE LeafParams(a.n, a.v)
                            [] OTHER -> g(a.c[1]) + g(a.c[2])
              IN g(m)
Statuses(m, dated, U) ==
  LET n == Len(U) k == PParams(m) IN
  CASE n = 0 -> {"EMPTY_TS"}
    [] n > 0 /\ n < k + 2 -> {"TS_TOO_SHORT"}
    [] OTHER ->
       IF \E c \in ChecksOf(m) : ~Holds(c, dated, U) THEN {"INPUT_ERR"}
       ELSE IF k = 0 THEN {"FIT"}
       ELSE IF Fails(m) THEN {"NO-FIT"}
       ELSE IF Tame(m) THEN {"FIT"} ELSE {"FIT", "NO-FIT"}

(***************************************************************************)
(* Grid and values of models without parameters                            *)
(***************************************************************************)
T0(R) == MinS(Ts(Weighted(R)))
X0(R) == MinS({r.x : r \in Range(Weighted(R))})
T1(R) == MaxS(Ts(R))

Grid(dated, f0, R, p, q) ==
  LET t0 == T0(R) t1 == T1(R) IN
  IF dated
  THEN LET f == UsedFreq(f0, t0)
           k == Horizon(f, p, q)
           \* acc: points so far; n of them after t1
           RECURSIVE walk(_, _, _)
           walk(acc, t, n) == IF t > t1 /\ n = k THEN acc
             ELSE walk(Append(acc, t), NextPoint(f, t), IF t > t1 THEN n + 1 ELSE n)
       IN walk(<<>>, t0, 0)
  ELSE [i \in 1..(t1 - t0 + 1 + NumericHorizon(p, q)) |-> t0 + i - 1]
XFrom(dated, t0, x0, t) == IF dated THEN x0 + (t - t0) \div DAY ELSE x0 + (t - t0)

\* Optional values
Lift(op(_, _), a, b) == IF IsSome(a) /\ IsSome(b) THEN Some(op(Get(a), Get(b)))
                        ELSE None
RECURSIVE PEval(_, _, _, _)
PEval(m, N, r, s) ==     \* N: rows for the naive models
  CASE m.k = "leaf" /\ m.n = "naive" -> NaiveAt(N, s.t)
    [] m.k = "leaf" /\ m.n = "snaive" -> SnaiveAt(N, s.t)
    [] m.k = "leaf" /\ m.n \notin {"naive", "snaive"} ->
         Some(LeafEval(m, r, <<>>, s))
    [] m.k = "add" -> Lift(LAMBDA a, b : a + b, PEval(m.c[1], N, 0, s),
                           PEval(m.c[2], N, 0, s))
    [] m.k = "mult" -> Lift(LAMBDA a, b : a * b, PEval(m.c[1], N, 1, s),
                            PEval(m.c[2], N, 1, s))
NaiveRows(R) == Mat([i \in 1..Len(R) |->
  [t |-> R[i].t, x |-> R[i].x, y |-> R[i].y, w |-> W(R[i])]])
Sample(dated, t, x) == [x |-> x, t |-> t, d |-> IF dated THEN DayOf(t) ELSE 0]

\* Rows of the forecast of model m (without parameters): non-null values on
\* the grid
FitRows(m, dated, R, grid) ==
  LET N == NaiveRows(R)
      t0 == T0(R)
      x0 == X0(R)
      v == Mat([i \in 1..Len(grid) |->
                 PEval(m, N, 0, Sample(dated, grid[i], XFrom(dated, t0, x0, grid[i])))])
      RECURSIVE g(_)
      g(i) == IF i > Len(grid) THEN <<>>
              ELSE IF IsSome(v[i]) THEN <<[t |-> grid[i], y |-> Get(v[i])]>> \o g(i + 1)
              ELSE g(i + 1)
  IN g(1)

\* 288 times the cost of a model without parameters: half of the sum of
\* squared residuals, each multiplied by its weight divided by the number of
\* usable samples with the same x (a divisor of 12)
Mult(U, i) == Cardinality({j \in 1..Len(U) : U[j].x = U[i].x})
CostDefined(U) == \A i \in 1..Len(U) : 12 % Mult(U, i) = 0
Cost288(m, dated, R) ==
  LET U == UsableRows(R)
      N == NaiveRows(R)
      sq(i) == LET v == PEval(m, N, 0, Sample(dated, U[i].t, U[i].x))
                   d == W(U[i]) * (12 \div Mult(U, i)) * (Get(U[i].y) - Get(v))
               IN IF IsSome(v) THEN d * d ELSE 0
  IN SumSeq([i \in 1..Len(U) |-> sq(i)])

(***************************************************************************)
(* AICc in units of 10^-3.  Natural logarithm of a positive integer in     *)
(* units of 10^-6: v = 2^e m / 2^14 with m in 2^14..2^15, and              *)
(* ln m/2^14 = 2 (z + z^3/3 + z^5/5 + z^7/7), z = (m - 2^14)/(m + 2^14)    *)
(***************************************************************************)
TwoTo14 == 16384
RECURSIVE Norm14(_, _)
Norm14(v, e) == IF v >= 2 * TwoTo14 THEN Norm14(v \div 2, e + 1)
                ELSE IF v < TwoTo14 THEN Norm14(v * 2, e - 1)
                ELSE <<v, e>>
\* (for v up to 2^31 the halving loses at most 2^-14 of the value)
LnInt(v) ==   \* 10^-6
  LET ne == Norm14(v, 14)
      \* z in 2^-15
      z == ((ne[1] - TwoTo14) * 32768) \div (ne[1] + TwoTo14)
      z2 == (z * z) \div 32768
      z3 == (z2 * z) \div 32768
      z5 == (z3 * z2) \div 32768
      z7 == (z5 * z2) \div 32768
      l15 == 2 * (z + z3 \div 3 + z5 \div 5 + z7 \div 7)
  IN ne[2] * 693147 + (l15 * 15625) \div 512
\* n*ln(num/den/n) + 2k + 2k(k+1)/(n-k-1) in units of 10^-3
Aic3(num, den, n, k) ==
  (n * ((LnInt(num) - LnInt(den) - LnInt(n)) \div 10)) \div 100
  + 2000 * k + (2000 * k * (k + 1)) \div (n - k - 1)
\* Error of Aic3: the logarithms are within 3 * 10^-4
AicTol(n) == 10 + n
\* (1e-320 has few significant bits)
AicTolPerfect(n) == 10 + 3 * n
\* Perfect fit: E = 1e-320, ln E = -736.827 (n of the order of 10^4 at most)
AicPerfect3(n, k) ==
  n * (0 - 736827 - LnInt(n) \div 1000)
  + 2000 * k + (2000 * k * (k + 1)) \div (n - k - 1)
\* The same in units, for long series
Aic0(num, den, n, k) ==
  (n * ((LnInt(num) - LnInt(den) - LnInt(n)) \div 1000)) \div 1000
  + 2 * k + (2 * k * (k + 1)) \div (n - k - 1)
AicPerfect0(n, k) ==
  LET v == 736827 + LnInt(n) \div 1000 IN
  0 - (n * (v \div 1000) + (n * (v % 1000)) \div 1000)
  + 2 * k + (2 * k * (k + 1)) \div (n - k - 1)
AicTol0(n) == 5 + n \div 100
AicRejected(n, k) == n <= k + 1

\* The place of the best of several values of the criterion: the first of the
\* least ones; none if there are no values
Better(a, b) == CASE a = b \/ a = NAN \/ a = PINF -> FALSE
                  [] a = NINF -> TRUE
                  [] b = NAN \/ b = PINF -> TRUE
                  [] b = NINF -> FALSE
                  [] OTHER -> a < b
BestPlace(v) ==
  LET N == {i \in 1..Len(v) : v[i] # NAN} IN
  IF N = {} THEN None
  ELSE <<CHOOSE i \in N : \A j \in N : ~Better(v[j], v[i]) /\ (j < i => Better(v[i], v[j]))>>

(***************************************************************************)
(* What the result depends on                                              *)
(***************************************************************************)
View(in, R0) ==
  LET R == From(R0, in.start)
      T == Ts(Weighted(R))
      f == IF in.dated THEN DetectFreq(Ts(R0)) ELSE ""
  IN [used |-> {<<r.t, r.x, Get(r.y), W(r),
                 Cardinality({i \in 1..Len(R) : R[i] = r})>> :
                   r \in Range(UsableRows(R))},
      n |-> Len(UsableRows(R)), freq |-> f,
      span |-> SpanOf(T), spacing |-> SpacingOf(T),
      t0 |-> IF T = {} THEN 0 ELSE T0(R),
      x0 |-> IF T = {} THEN 0 ELSE X0(R),
      t1 |-> IF T = {} THEN 0 ELSE T1(R)]
=============================================================================
