------------------------------ MODULE Outlier ------------------------------
(***************************************************************************)
(* Detection of outliers in a series: a sequence y of optional integers,   *)
(* in the order of time.                                                   *)
(*                                                                         *)
(* Thresholds are multiples of 1/8: they are scaled by 8.                  *)
(***************************************************************************)
EXTENDS Prelude

\* Change at sample i: the value less the one before; none at the first
\* sample and next to missing values
Change(y, i) == IF i > 1 /\ IsSome(y[i]) /\ IsSome(y[i-1])
                THEN Some(Get(y[i]) - Get(y[i-1])) ELSE None
Changes(y) == Mat([i \in 1..Len(y) |-> Change(y, i)])
Values(d) == Sort(Mat([i \in 1..Len(Filter(d, IsSome)) |-> Get(Filter(d, IsSome)[i])]))

\* 4 times the quantile k/4 of the sorted sequence v (linear interpolation)
Quart(v, k) ==
  LET p == (Len(v) - 1) * k
      i == p \div 4 + 1
      f == p % 4
  IN IF f = 0 THEN 4 * v[i] ELSE (4 - f) * v[i] + f * v[i+1]

\* 8 times the thresholds: 1.5 interquartile ranges beyond the quartiles
Low(v)  == 2 * Quart(v, 1) - 3 * (Quart(v, 3) - Quart(v, 1))
High(v) == 2 * Quart(v, 3) + 3 * (Quart(v, 3) - Quart(v, 1))

\* Positions of the changes beyond the thresholds
Beyond(y) ==
  LET d == Changes(y) v == Values(d) IN
  IF v = <<>> THEN {}
  ELSE {i \in 1..Len(y) : IsSome(d[i]) /\
                          (8 * Get(d[i]) < Low(v) \/ 8 * Get(d[i]) > High(v))}

\* Consecutive changes of S at most w samples apart belong to one group
Groups(S, w) ==
  LET starts == {i \in S : \A j \in S : j < i => i - j > w}
      nextOf(i) == {j \in starts : j > i}
  IN {{j \in S : j >= i /\ \A k \in nextOf(i) : j < k} : i \in starts}

SumOf(d, G) == SumSeq(LET q == SetToSorted(G) IN
                      [i \in 1..Len(q) |-> Get(d[q[i]])])
SumAbs(d, G) == SumSeq(LET q == SetToSorted(G) IN
                       [i \in 1..Len(q) |-> Abs(Get(d[q[i]]))])

\* A group is a step if the mean of its changes is beyond the thresholds
IsStep(d, G, v) ==
  LET n == Cardinality(G) s == 8 * SumOf(d, G) IN
  s < n * Low(v) \/ s > n * High(v)
\* ... and a spike if its changes cancel out: the mean of their sizes exceeds
\* the size of their mean by more than half of the distance of the thresholds
SpikeExcess(d, G, v) ==
  16 * (SumAbs(d, G) - Abs(SumOf(d, G))) - Cardinality(G) * (High(v) - Low(v))
IsSpike(d, G, v) == SpikeExcess(d, G, v) > 0

\* A step mask covers a step group from its first to its last change, a spike
\* mask a spike group up to before its last change
StepMask(y, w) ==
  LET d == Changes(y) v == Values(d) IN
  UNION {MinS(G)..MaxS(G) : G \in {H \in Groups(Beyond(y), w) : IsStep(d, H, v)}}
SpikeMask(y, w) ==
  LET d == Changes(y) v == Values(d) IN
  UNION {MinS(G)..(MaxS(G) - 1) : G \in {H \in Groups(Beyond(y), w) : IsSpike(d, H, v)}}
\* Samples of groups whose excess is 0: the means of the changes are rounded
\* unless their number is a power of two, so they may go either way
Doubtful(y, w) ==
  LET d == Changes(y) v == Values(d) IN
  UNION {MinS(G)..(MaxS(G) - 1) : G \in
    {H \in Groups(Beyond(y), w) : SpikeExcess(d, H, v) = 0 /\
                                  Cardinality(H) \notin {1, 2, 4, 8}}}

(***************************************************************************)
(* Weights for a forecast that looks for outliers: rows [y, w] of optional *)
(* values; only usable rows take part.                                     *)
(***************************************************************************)
UsableRows(R) == Filter([i \in 1..Len(R) |-> i],
  LAMBDA i : IsSome(R[i].y) /\ IsSome(R[i].w) /\ Get(R[i].w) > 0)
SpikeRows(R, w) ==
  LET u == Mat(UsableRows(R)) IN
  {u[k] : k \in SpikeMask(Mat([j \in 1..Len(u) |-> R[u[j]].y]), w)}
DoubtfulRows(R, w) ==
  LET u == Mat(UsableRows(R)) IN
  {u[k] : k \in Doubtful(Mat([j \in 1..Len(u) |-> R[u[j]].y]), w)}
=============================================================================
