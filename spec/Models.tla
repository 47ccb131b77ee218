------------------------------- MODULE Models ------------------------------
(***************************************************************************)
(* Forecast models as terms of an algebra, and their meaning.              *)
(*                                                                         *)
(* A term is a record [k, n, c, v]:                                        *)
(*   k = "leaf"  a predefined (or probe) model of kind n, arguments v      *)
(*   k = "add", "mult"  composition of the two terms in c                  *)
(*   k = "fix"   the term c[1] with parameters fixed: v is a sequence with *)
(*               one optional value per parameter of c[1]                  *)
(* Each term also has the display name nm (unspecified for "fix").         *)
(*                                                                         *)
(* A sample is a record [x, t, d]: position on the x axis, instant         *)
(* (minutes) and day number.  Values and parameters are integers; real     *)
(* parameters of the models based on the exponential function are encoded  *)
(* as stated at their formulas.                                            *)
(***************************************************************************)
EXTENDS Calendar

Leaf(n, nm, v) == [k |-> "leaf", n |-> n, nm |-> nm, c |-> <<>>, v |-> v]
NullM == Leaf("null", "null", <<>>)
IsNull(m) == m.nm = "null"

\* Composition.  The null model is the identity of both operators.
Compose(op, a, b) ==
  IF IsNull(a) THEN b ELSE IF IsNull(b) THEN a
  ELSE [k |-> op, n |-> "",
        nm |-> "(" \o a.nm \o (IF op = "add" THEN "+" ELSE "*") \o b.nm \o ")",
        c |-> <<a, b>>, v |-> <<>>]
Fix(a, v, nm) == [k |-> "fix", n |-> "", nm |-> nm, c |-> <<a>>, v |-> v]

Free(v) == Filter([i \in 1..Len(v) |-> i], LAMBDA i : v[i] = None)
\* The fixed values with the free parameters p inserted
Insert(v, p) ==
  LET cnt[i \in 0..Len(v)] == IF i = 0 THEN 0
                              ELSE cnt[i-1] + (IF v[i] = None THEN 1 ELSE 0)
  IN [i \in 1..Len(v) |-> IF v[i] = None THEN p[cnt[i]] ELSE Get(v[i])]

LeafParams(n, v) ==
  CASE n = "null" -> 0
    [] n \in {"constant", "spike_date", "step_date", "dummy"} -> 1
    [] n \in {"linear", "exponential", "step", "ramp"} -> 2
    [] n \in {"quasilinear", "decay", "spike", "sigmoid"} -> 3
    [] n = "two_steps" -> 4
    [] n = "season_wday" -> 6
    [] n = "season_month" -> 11
    [] n = "season_fourier_yearly" -> 20
    [] n = "dummies" -> Len(v)
    [] n = "calendar" -> IF v = "calendar_us" THEN 1 ELSE 2
    [] n = "probe" -> v.np
RECURSIVE NParams(_)
NParams(m) ==
  CASE m.k = "leaf" -> LeafParams(m.n, m.v)
    [] m.k = "fix" -> Len(Free(m.v))
    [] OTHER -> NParams(m.c[1]) + NParams(m.c[2])

\* (a sequence: arguments of leaves have different types)
RECURSIVE Leaves(_)
Leaves(m) == CASE m.k = "leaf" -> <<m>>
               [] m.k = "fix" -> Leaves(m.c[1])
               [] OTHER -> Leaves(m.c[1]) \o Leaves(m.c[2])
SomeLeaf(m, P(_)) == LET s == Leaves(m) IN \E i \in 1..Len(s) : P(s[i])
UnionOf(m, F(_)) == LET s == Leaves(m) IN UNION {F(s[i]) : i \in 1..Len(s)}
RECURSIVE HasFix(_)
HasFix(m) == m.k = "fix" \/ \E i \in 1..Len(m.c) : HasFix(m.c[i])

\* Cached variables a term needs
LeafCache(m) ==
  CASE m.n = "season_wday" -> {"a_weekday"}
    [] m.n = "season_month" -> {"a_month"}
    [] m.n = "season_fourier_yearly" -> {"a_t_fourier"}
    [] m.n = "dummy" -> {"mask_" \o m.nm}
    [] m.n = "calendar" ->
         CASE m.v = "calendar_uk" -> {"mask_CalendarChristmasUK", "mask_CalendarBankHolUK"}
           [] m.v = "calendar_ita" -> {"mask_CalendarChristmasIta", "mask_CalendarBankHolIta"}
           [] OTHER -> {"mask_USFederalHolidayCalendar"}
    [] m.n = "probe" -> Range(m.v.cache)
    [] OTHER -> {}
CacheOf(m) == UnionOf(m, LeafCache)

\* Validations a term inherits: requirements on the samples
LeafChecks(m) == CASE m.n = "season_wday" -> {"weekdays"}
                   [] m.n \in {"season_month", "season_fourier_yearly", "calendar",
                                "spike_date", "step_date"} -> {"dates"}
                   [] m.n = "dummy" ->
                        IF m.v.kind \in {"christmas", "month_start", "holiday"} \/
                           m.nm = "season_wday_2" THEN {"dates"} ELSE {}
                   [] m.n = "decay" -> {"positive"}
                   [] m.n = "ramp" -> {"x4"}
                   [] m.n = "probe" -> Range(m.v.checks)
                   [] OTHER -> {}
ChecksOf(m) == UnionOf(m, LeafChecks)

(***************************************************************************)
(* Formulas.  r is the role: 0 if the model is added (or alone), 1 if it   *)
(* is multiplied.                                                          *)
(***************************************************************************)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

StepVal(a, b, r, x) == IF x >= a THEN b ELSE r
Hit(v, s) ==   \* dummy variables
  CASE v.kind = "weekday<5" -> Weekday(s.d) < 5
    [] v.kind = "christmas" -> LET c == Civil(s.d) IN c[2] = 12 /\ c[3] = 25
    [] v.kind = "month_start" -> DayOfMonth(s.d) = 1
    [] v.kind = "x" -> s.x \in Range(v.l)
    [] v.kind = "t" -> s.t \in Range(v.l)
    [] v.kind = "holiday" -> Hits(LAMBDA y : {NextMonday(DayNum(y, v.l[1], v.l[2]))}, s.d)
\* Added: the sum of the parameters that apply; multiplied: the product of
\* 1 plus each parameter that applies
Masked(p, h, r) ==
  IF r = 0 THEN SumSeq([i \in 1..Len(p) |-> IF h[i] THEN p[i] ELSE 0])
  ELSE FoldL(LAMBDA acc, q : acc * q, 1,
             [i \in 1..Len(p) |-> IF h[i] THEN p[i] + 1 ELSE 1])

LeafEval(m, r, p, s) ==
  CASE m.n = "null" -> r
    [] m.n = "constant" -> p[1]
    [] m.n = "linear" -> p[1] * s.x + p[2]
    [] m.n = "quasilinear" -> p[1] * Pow(s.x, p[2]) + p[3]
    [] m.n = "exponential" -> p[1] * Pow(p[2], s.x)
    \* parameters <<A, k, D>>: A * exp(-k ln(2) x) + D
    [] m.n = "decay" -> p[1] \div Pow(2, p[2] * s.x) + p[3]
    [] m.n = "step" -> StepVal(p[1], p[2], r, s.x)
    [] m.n = "two_steps" ->
         LET a == StepVal(p[1], p[2], r, s.x) b == StepVal(p[3], p[4], r, s.x)
         IN IF r = 0 THEN a + b ELSE a * b
    [] m.n = "spike" -> IF s.x >= p[2] /\ s.x < p[3] THEN p[1] ELSE r
    [] m.n = "spike_date" -> IF s.t >= m.v[1] /\ s.t < m.v[2] THEN p[1] ELSE r
    [] m.n = "step_date" -> IF s.t >= m.v[1] THEN p[1] ELSE r
    [] m.n = "ramp" -> r + (IF s.x >= p[1] THEN (s.x - p[1]) * p[2] ELSE 0)
    [] m.n = "season_wday" -> IF Weekday(s.d) = 0 THEN r ELSE p[Weekday(s.d)]
    [] m.n = "season_month" -> IF Month(s.d) = 1 THEN r ELSE p[Month(s.d) - 1]
    [] m.n = "dummy" -> Masked(p, <<Hit(m.v, s)>>, r)
    [] m.n = "dummies" -> Masked(p, [i \in 1..Len(m.v) |-> Hit(m.v[i], s)], r)
    [] m.n = "calendar" -> Masked(p, CalendarHits(m.v, s.d), r)
    [] m.n = "probe" ->
         m.v.a * r + SumSeq([i \in 1..Len(p) |-> i * p[i]])
         + m.v.b * s.x + m.v.w * Weekday(s.d)

\* (model checking replaces it by the product in a finite ring)
Times(a, b) == a * b

RECURSIVE Eval(_, _, _, _)
Eval(m, r, p, s) ==
  CASE m.k = "leaf" -> LeafEval(m, r, p, s)
    [] m.k = "fix" -> Eval(m.c[1], r, Insert(m.v, p), s)
    [] OTHER ->
         LET n1 == NParams(m.c[1])
             p1 == SubSeq(p, 1, n1)
             p2 == SubSeq(p, n1 + 1, Len(p))
         IN IF m.k = "add"
            THEN Eval(m.c[1], 0, p1, s) + Eval(m.c[2], 0, p2, s)
            ELSE Times(Eval(m.c[1], 1, p1, s), Eval(m.c[2], 1, p2, s))

\* Initial parameters and bounds of probe models (others are data dependent)
LeafInit(m, r) == IF m.n = "probe"
  THEN [i \in 1..m.v.np |-> m.v.init + i + 10 * r] ELSE <<>>
RECURSIVE InitParams(_, _)
InitParams(m, r) ==
  CASE m.k = "leaf" -> LeafInit(m, r)
    [] m.k = "fix" -> LET q == InitParams(m.c[1], r) IN
                        [i \in 1..Len(Free(m.v)) |-> q[Free(m.v)[i]]]
    [] OTHER -> LET q == IF m.k = "mult" THEN 1 ELSE 0 IN
                  InitParams(m.c[1], q) \o InitParams(m.c[2], q)
RECURSIVE Bounds(_, _)
\* w = 1: lower bounds, w = 2: upper bounds
Bounds(m, w) ==
  CASE m.k = "leaf" -> IF m.n = "probe" THEN [i \in 1..m.v.np |-> m.v.bounds[w]]
                       ELSE <<>>
    [] m.k = "fix" -> LET q == Bounds(m.c[1], w) IN
                        [i \in 1..Len(Free(m.v)) |-> q[Free(m.v)[i]]]
    [] OTHER -> Bounds(m.c[1], w) \o Bounds(m.c[2], w)

(***************************************************************************)
(* Sigmoid: parameters <<B, C, k>> with D = k ln(2), so that the value is  *)
(* r + (B - r) * 2^z / (1 + 2^z), z = k (x - C).  y4 is the value times    *)
(* 10^4, rounded.                                                          *)
(***************************************************************************)
SigmoidOk(r, p, x, y4) ==
  LET z == p[3] * (x - p[2])
      num == IF z >= 0 THEN Pow(2, z) ELSE 1
      den == 1 + Pow(2, Abs(z))
  IN Abs(y4 * den - (r * den + (p[1] - r) * num) * 10000) <= den

(***************************************************************************)
(* Yearly Fourier seasonality: the sum over k = 1..10 of p[k] sin(k a) +   *)
(* p[10 + k] cos(k a), a = 2 pi d / 365.25.  Sine of 2 pi n / m in units   *)
(* of 10^-4 by reduction to the first octant and Taylor polynomials.       *)
(***************************************************************************)
Q == 10000
Rnd(a, b) == (2 * a + b) \div (2 * b)
\* x in 0..pi/4 (units of 1/Q)
SinT(x) == LET x2 == Rnd(x * x, Q)
               t3 == Rnd(x2 * Rnd(x * Q, 6 * Q), Q)
               t5 == Rnd(x2 * Rnd(t3 * Q, 20 * Q), Q)
           IN x - t3 + t5
CosT(x) == LET x2 == Rnd(x * x, Q)
               t4 == Rnd(x2 * Rnd(x2, 2), Q * 12)
               t6 == Rnd(x2 * t4, Q * 30)
           IN Q - Rnd(x2, 2) + t4 - t6
\* sin and cos of 2 pi n / m for 0 <= 8 n <= 2 m
FirstQuadrant(n, m) ==
  IF 8 * n <= m THEN LET x == Rnd(62832 * n, m) IN <<SinT(x), CosT(x)>>
  ELSE LET x == Rnd(62832 * (m - 4 * n), 4 * m) IN <<CosT(x), SinT(x)>>
SinCos(n0, m) ==
  LET n == n0 % m
      q == (4 * n) \div m
      \* 4 (n - q m / 4) = 4 n - q m: work with m4 = 4 m
      f == FirstQuadrant(4 * n - q * m, 4 * m)
  IN CASE q = 0 -> f
       [] q = 1 -> <<f[2], -f[1]>>
       [] q = 2 -> <<-f[1], -f[2]>>
       [] q = 3 -> <<-f[2], f[1]>>
FourierVal(p, d) ==
  SumSeq([k \in 1..10 |->
    IF p[k] = 0 /\ p[10 + k] = 0 THEN 0
    ELSE LET f == SinCos((4 * k * d) % 1461, 1461)
         IN p[k] * f[1] + p[10 + k] * f[2]])
FourierOk(p, d, y4) ==
  Abs(y4 - FourierVal(p, d)) <= 10 * SumSeq([i \in 1..20 |-> Abs(p[i])]) + 1
=============================================================================
