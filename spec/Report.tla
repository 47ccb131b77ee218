------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* How the tables of a forecast describe the fits they come from: what the *)
(* metadata say about the samples, and how parameters, rows and cost of a  *)
(* fit are tied together.                                                  *)
(***************************************************************************)
EXTENDS Pipeline

\* Range of the weights that are not missing, None if there are no weights
WeightRange(R, weighted) ==
  LET V == {Get(r.w) : r \in {z \in Range(R) : IsSome(z.w)}} IN
  IF ~weighted THEN Some(<<1, 1>>)
  ELSE IF V = {} THEN None ELSE Some(<<MinS(V), MaxS(V)>>)
\* First and last usable sample (days if dated, else x)
UsedRange(U, dated) ==
  LET V == {IF dated THEN DayOf(r.t) ELSE r.x : r \in Range(U)} IN
  IF V = {} THEN None ELSE Some(<<MinS(V), MaxS(V)>>)

\* K * weight / number of samples at the same x, for a K that all these
\* numbers divide
Divides(U, K) == \A i \in 1..Len(U) : K % Mult(U, i) = 0
Factor(U, i, K) == W(U[i]) * (K \div Mult(U, i))
\* The value that the rows (t -> value) have at a sample, if any
At(V, t) == IF t \in DOMAIN V THEN Some(V[t]) ELSE None
ValueMap(X) == LET f == [t \in {X[i].t : i \in 1..Len(X)} |->
                          (CHOOSE x \in Range(X) : x.t = t).v] IN Mat2(f)
\* 2 K^2 u^2 times the cost that rows V (values in units of 1 / u) have with
\* respect to samples U, and the error of it if values are off by at most 1
Cost2(U, K, u, V) ==
  SumSeq([i \in 1..Len(U) |->
    LET v == At(V, U[i].t)
        r == Factor(U, i, K) * (Get(U[i].y) * u - Get(v))
    IN IF IsSome(v) THEN r * r ELSE 0])
Cost2Err(U, K, u, V) ==
  SumSeq([i \in 1..Len(U) |->
    LET v == At(V, U[i].t)
        f == Factor(U, i, K)
        r == Abs(f * (Get(U[i].y) * u - Get(v)))
    IN IF IsSome(v) THEN f * (2 * r + f) ELSE 0])
=============================================================================
