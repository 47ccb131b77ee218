------------------------------- MODULE Naive --------------------------------
(***************************************************************************)
(* Forecasts that repeat past observations.  A row is [t, x, y, w]: instant *)
(* (or index, if the series has no dates), x, optional value, weight.       *)
(***************************************************************************)
EXTENDS Freq

Usable(r) == IsSome(r.y) /\ r.w > 0
UsableOf(rows) == {r \in Range(rows) : Usable(r)}
Latest(R) == CHOOSE r \in R : \A q \in R : q.t <= r.t
Earliest(R) == CHOOSE r \in R : \A q \in R : q.t >= r.t

\* Last usable value before t; before the first one, the first one
NaiveAt(rows, t) ==
  LET U == UsableOf(rows)
      B == {r \in U : r.t < t}
  IN IF B # {} THEN Latest(B).y
     ELSE IF U # {} THEN Earliest(U).y ELSE None

\* Last usable value before t on the weekday of t
SnaiveAt(rows, t) ==
  LET B == {r \in UsableOf(rows) : /\ r.t < t
                                   /\ Weekday(DayOf(r.t)) = Weekday(DayOf(t))}
  IN IF B # {} THEN Latest(B).y ELSE None

PredictAt(m, rows, t) ==
  IF m = "naive" THEN NaiveAt(rows, t) ELSE SnaiveAt(rows, t)

\* Twice the cost of the forecast on its own samples
NaiveCost(m, rows) ==
  LET sq(r) == LET p == PredictAt(m, rows, r.t) IN
                 IF Usable(r) /\ IsSome(p)
                 THEN (r.w * (Get(r.y) - Get(p))) * (r.w * (Get(r.y) - Get(p)))
                 ELSE 0
  IN SumSeq([i \in 1..Len(rows) |-> sq(rows[i])])
=============================================================================
