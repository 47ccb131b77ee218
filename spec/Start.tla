------------------------------- MODULE Start -------------------------------
(***************************************************************************)
(* Where a fit starts: requirements of the models on the samples, the      *)
(* bounds of their parameters, and initial parameters.                     *)
(*                                                                         *)
(* U is the sequence of usable samples [x, t, d, y], ordered by x, y an    *)
(* integer; dated whether they have dates.  A bound is <<>> (none),        *)
(* <<"abs", v>> or <<"y", v>>: v in the unit of the parameters, or in that *)
(* of the values of the series.                                            *)
(***************************************************************************)
EXTENDS Fit

Xs(U) == {U[i].x : i \in 1..Len(U)}
Ys(U) == {U[i].y : i \in 1..Len(U)}
\* Samples a model accepts
Meets(check, dated, U) ==
  CASE check = "dates" -> dated
    [] check = "weekdays" -> dated /\ {Weekday(U[i].d) : i \in 1..Len(U)} = 0..6
    [] check = "positive" -> \A i \in 1..Len(U) : U[i].y > 0
    [] check = "x4" -> Cardinality(Xs(U)) >= 4
Accepts(m, dated, U) == \A c \in ChecksOf(m) : Meets(c, dated, U)

(***************************************************************************)
(* Bounds: <<lower, upper>> per parameter                                  *)
(***************************************************************************)
Ceil15(n) == (15 * n + 99) \div 100
Free0 == <<None, None>>
\* U = <<>>: without a series
LeafBounds(m, U) ==
  CASE m.nm = "linear_nondec" -> <<<<<<"abs", 0>>, None>>, Free0>>
    [] m.n = "decay" -> <<Free0, <<None, <<"abs", 0>>>>, Free0>>
    [] m.nm = "sigmoid_step" ->
         IF U = <<>> THEN <<Free0, Free0, <<<<"abs", 0>>, None>>>>
         ELSE LET d == MaxS(Ys(U)) - MinS(Ys(U)) IN
              <<<<<<"y", 0 - 2 * d>>, <<"y", 2 * d>>>>,
                <<<<"abs", MinS(Xs(U))>>, <<"abs", MaxS(Xs(U))>>>>,
                <<<<"abs", 0>>, None>>>>
    [] m.n = "ramp" ->
         IF U = <<>> THEN <<Free0, Free0>>
         ELSE LET s == SetToSorted(Xs(U)) n == Len(s) k == Ceil15(n) IN
              <<<<<<"abs", s[k + 1]>>, <<"abs", s[n - k + 1]>>>>, Free0>>
    [] OTHER -> [j \in 1..LeafParams(m.n, m.v) |-> Free0]
RECURSIVE TermBounds(_, _)
TermBounds(m, U) ==
  CASE m.k = "leaf" -> LeafBounds(m, U)
    [] m.k = "fix" -> LET b == TermBounds(m.c[1], U) f == Free(m.v) IN
                      [j \in 1..Len(f) |-> b[f[j]]]
    [] OTHER -> TermBounds(m.c[1], U) \o TermBounds(m.c[2], U)

(***************************************************************************)
(* Fits that can start: the value is finite at any initial parameters.     *)
(* (A power of a negative x is undefined; exponential functions overflow   *)
(* far from the origin, or with fixed parameters.)                        *)
(***************************************************************************)
Finite(m, U) ==
  SomeLeaf(m, LAMBDA a : a.n \in {"quasilinear", "exponential", "decay"}) =>
    ~HasFix(m) /\ \A i \in 1..Len(U) : U[i].x >= 0
Bounded(m) == SomeLeaf(m, LAMBDA a :
  a.nm \in {"linear_nondec", "sigmoid_step"} \/ a.n \in {"decay", "ramp"})
\* Fits that succeed: linear least squares without bounds
Succeeds(m) == Affine(m) /\ ~Bounded(m)

\* Parameters whose bounds coincide are not fitted
Fitted(m, U) == LET b == TermBounds(m, U) IN
  Filter([j \in 1..Len(b) |-> j], LAMBDA j : b[j][1] = None \/ b[j][1] # b[j][2])
\* Positions of the parameters that may not be negative / positive
RECURSIVE Signs(_)
Signs(m) ==
  CASE m.k = "leaf" -> [j \in 1..LeafParams(m.n, m.v) |->
         IF m.nm = "linear_nondec" /\ j = 1 THEN 1
         ELSE IF m.n = "decay" /\ j = 2 THEN -1 ELSE 0]
    [] m.k = "fix" -> LET b == Signs(m.c[1]) f == Free(m.v) IN
                      [j \in 1..Len(f) |-> b[f[j]]]
    [] OTHER -> Signs(m.c[1]) \o Signs(m.c[2])

(***************************************************************************)
(* Initial parameters that do not depend on chance, as pairs <<n, d>> of   *)
(* integers with d > 0 (n / d), where the value is rational.  This is how  *)
(* the models choose them; the requirement is only that they are within    *)
(* the bounds.                                                             *)
(***************************************************************************)
Whole(v) == <<v, 1>>
\* Index of the first maximum of a non-empty sequence
ArgMax(s) == CHOOSE i \in 1..Len(s) : /\ \A j \in 1..Len(s) : s[j] <= s[i]
                                      /\ \A j \in 1..(i - 1) : s[j] < s[i]
Diffs(U) == [i \in 1..(Len(U) - 1) |-> U[i + 1].y - U[i].y]
AbsS(s) == [i \in 1..Len(s) |-> Abs(s[i])]
Clamp(v, lo, hi) == Min2(Max2(v, lo), hi)
\* The first sample at each x
Firsts(U) == LET k == Filter([i \in 1..Len(U) |-> i],
                             LAMBDA i : \A j \in 1..(i - 1) : U[j].x # U[i].x)
             IN Mat([i \in 1..Len(k) |-> U[k[i]]])
LinearGuess(U) ==
  LET d == Max2(Cardinality(Xs(U)) - 1, 1)
      a == Last(U).y - U[1].y
      big == U[ArgMax([i \in 1..Len(U) |-> Abs(U[i].y)])].y
  IN <<<<a, d>>, Whole(IF a = 0 /\ U[1].y = 0 THEN big ELSE U[1].y)>>
\* mean over the samples of month i (1: January), <<sum, count>>
MonthSum(U, i) ==
  LET q == Filter(U, LAMBDA s : Civil(s.d)[2] = i) IN
  <<SumSeq([j \in 1..Len(q) |-> q[j].y]), Len(q)>>
MonthGuess(U, r) ==
  LET b == MonthSum(U, 12) IN
  [i \in 1..11 |->
    LET s == MonthSum(U, i) IN
    IF r = 0
    THEN IF s[2] = 0 \/ b[2] = 0 THEN Whole(0)
         ELSE <<s[1] * b[2] - b[1] * s[2], s[2] * b[2]>>
    ELSE IF s[2] = 0 \/ b[2] = 0 \/ b[1] = 0 THEN Whole(1)
         ELSE LET g == IF b[1] > 0 THEN 1 ELSE -1 IN
              <<g * s[1] * b[2], g * b[1] * s[2]>>]
RampGuess(U) ==
  LET F == Firsts(U)
      n == Len(F)
      k == Ceil15(n)
      \* second differences, from the third sample on
      c == Filter([i \in 1..n |-> i], LAMBDA i : i > k /\ i <= n - k /\ i >= 3)
      v == [j \in 1..Len(c) |->
             Abs(F[c[j]].y - 2 * F[c[j] - 1].y + F[c[j] - 2].y)]
      a == ArgMax(v)
  IN <<Whole(F[c[a]].x), Whole(v[a])>>
SigmoidGuess(U) ==
  LET i == ArgMax(AbsS(Diffs(U)))      \* step between samples i and i + 1
      d == MaxS(Ys(U)) - MinS(Ys(U))
      b == U[i + 1].y
  IN <<Whole(Clamp(b, 0 - 2 * d, 2 * d)),
       Whole(Clamp(i, MinS(Xs(U)), MaxS(Xs(U)))), Whole(b * b)>>
Guessed == {"linear", "ramp", "sigmoid", "season_month", "step"}
LeafGuess(m, r, U) ==
  CASE m.n = "linear" ->
         LET g == LinearGuess(U) IN
         IF m.nm = "linear_nondec" /\ g[1][1] <= 0
         THEN <<<<MaxS({Abs(v) : v \in Ys(U)}), Len(U)>>, g[2]>> ELSE g
    [] m.n = "ramp" -> RampGuess(U)
    [] m.n = "sigmoid" -> SigmoidGuess(U)
    [] m.n = "season_month" -> MonthGuess(U, r)
    [] m.n = "step" -> LET a == AbsS(Diffs(U)) i == ArgMax(a) IN
                       <<Whole(i), Whole(2 * a[i])>>
RECURSIVE TermGuess(_, _, _)
TermGuess(m, r, U) ==
  CASE m.k = "leaf" -> LeafGuess(m, r, U)
    [] m.k = "fix" -> LET g == TermGuess(m.c[1], r, U) f == Free(m.v) IN
                      [j \in 1..Len(f) |-> g[f[j]]]
    [] OTHER -> LET q == IF m.k = "mult" THEN 1 ELSE 0 IN
                TermGuess(m.c[1], q, U) \o TermGuess(m.c[2], q, U)
Ge(g, v) == g[1] >= v * g[2]
Le(g, v) == g[1] <= v * g[2]
InBounds2(g, b) ==
  /\ Len(g) = Len(b)
  /\ \A j \in 1..Len(g) :
       /\ g[j][2] > 0
       /\ (IsSome(b[j][1]) => Ge(g[j], b[j][1][2]))
       /\ (IsSome(b[j][2]) => Le(g[j], b[j][2][2]))
=============================================================================
