-------------------------------- MODULE Fit --------------------------------
(***************************************************************************)
(* Fitting a model to samples by weighted least squares.                   *)
(*                                                                         *)
(* A row is a record [x, t, d, y, w]: a sample of Models with an optional  *)
(* value and an optional weight.  Rows without value or without positive   *)
(* weight are ignored.  The residual of a usable row is multiplied by its  *)
(* weight divided by the number of usable rows at the same x; numbers of   *)
(* rows that share x divide 6, and weights are scaled by 6.                *)
(*                                                                         *)
(* For a model whose value is an affine function of its parameters the     *)
(* cost is a convex quadratic function of them: parameters p within the    *)
(* bounds are optimal if and only if the cost does not decrease in the     *)
(* direction of any single parameter that the bounds leave open.           *)
(***************************************************************************)
EXTENDS Models

UsableRows(R) ==
  Filter(R, LAMBDA r : IsSome(r.y) /\ IsSome(r.w) /\ Get(r.w) > 0)
Sharing(U, x) == Cardinality({k \in 1..Len(U) : U[k].x = x})
\* 6 times the factor of each residual
Factors(U) ==
  Mat([i \in 1..Len(U) |-> (6 * Get(U[i].w)) \div Sharing(U, U[i].x)])

Unit(n, j) == Mat([i \in 1..n |-> IF i = j THEN 1 ELSE 0])
Zero(n) == Mat([i \in 1..n |-> 0])
\* Derivative of the value of m at s by parameter j
Slope(m, j, s) == LET n == NParams(m) IN
  Eval(m, 0, Unit(n, j), s) - Eval(m, 0, Zero(n), s)
\* The value is affine in the parameters: sums of models that are
RECURSIVE Affine(_)
Affine(m) ==
  CASE m.k = "leaf" -> m.n \in {"null", "constant", "linear", "spike_date",
         "step_date", "season_wday", "season_month", "dummy", "dummies",
         "calendar", "probe"}
    [] m.k = "fix" -> Affine(m.c[1])
    [] m.k = "add" -> Affine(m.c[1]) /\ Affine(m.c[2])
    \* at most one factor has parameters
    [] OTHER -> Affine(m.c[1]) /\ Affine(m.c[2]) /\
                (NParams(m.c[1]) = 0 \/ NParams(m.c[2]) = 0)

Residuals(m, p, U) ==
  Mat([i \in 1..Len(U) |-> Get(U[i].y) - Eval(m, 0, p, U[i])])
\* 72 times the cost: the sum of squares of 6 times the weighted residuals
Cost72(m, p, U) ==
  LET r == Residuals(m, p, U) f == Factors(U) IN
  SumSeq([i \in 1..Len(U) |-> f[i] * f[i] * r[i] * r[i]])
\* Decrease of the cost along each parameter
Descent(m, p, U) ==
  LET r == Residuals(m, p, U)
      f == Factors(U)
      fr == Mat([i \in 1..Len(U) |-> f[i] * f[i] * r[i]])
  IN Mat([j \in 1..NParams(m) |->
       SumSeq([i \in 1..Len(U) |-> fr[i] * Slope(m, j, U[i])])])
Within(p, lo, hi) ==
  \A j \in 1..Len(p) : (IsSome(lo[j]) => p[j] >= Get(lo[j])) /\
                       (IsSome(hi[j]) => p[j] <= Get(hi[j]))
Optimal(m, p, lo, hi, U) ==
  /\ Affine(m) /\ Len(p) = NParams(m) /\ Within(p, lo, hi)
  /\ LET g == Descent(m, p, U) IN
     \A j \in 1..Len(p) :
       /\ g[j] > 0 => IsSome(hi[j]) /\ p[j] = Get(hi[j])
       /\ g[j] < 0 => IsSome(lo[j]) /\ p[j] = Get(lo[j])
=============================================================================
