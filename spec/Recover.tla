------------------------------ MODULE Recover ------------------------------
(***************************************************************************)
(* Series without noise: the actuals follow a model with known parameters, *)
(* and so do their forecasts.  The samples of a dated series are instants; *)
(* their x are whole days since the Monday of the week of the first one.   *)
(* The x of a series without dates are its own.                            *)
(***************************************************************************)
EXTENDS Fit, Freq

SampleAt(dated, t, t0) ==
  IF dated THEN [x |-> XOfDate(t, t0), t |-> t, d |-> DayOf(t)]
  ELSE [x |-> t, t |-> 0, d |-> 0]
\* instants of the forecast of a series of frequency f with the grid through
\* t0 and last sample t1, for pp/pq years
ForecastGrid(dated, f, t0, t1, pp, pq, g) ==
  IF dated THEN IsGrid(f, t0, t1, Horizon(f, pp, pq), g)
  ELSE /\ Len(g) = t1 - t0 + 1 + NumericHorizon(pp, pq)
       /\ \A i \in 1..Len(g) : g[i] = t0 + i - 1

(***************************************************************************)
(* What the samples have to show so that they determine the parameters of  *)
(* a model.                                                                *)
(***************************************************************************)
RECURSIVE Shown(_, _)
Shown(m, S) ==
  IF m.k # "leaf" THEN \A i \in 1..Len(m.c) : Shown(m.c[i], S)
  ELSE LET N == {S[i].d : i \in 1..Len(S)} IN
  CASE m.n = "linear" -> Cardinality({S[i].x : i \in 1..Len(S)}) >= 2
    \* two samples before and after, in two different weeks
    [] m.n = "step_date" ->
         /\ Cardinality({i \in 1..Len(S) : S[i].t < m.v[1]}) >= 2
         /\ Cardinality({i \in 1..Len(S) : S[i].t >= m.v[1]}) >= 2
    [] m.n = "spike_date" ->
         /\ \E i \in 1..Len(S) : S[i].t >= m.v[1] /\ S[i].t < m.v[2]
         /\ Cardinality({i \in 1..Len(S) : ~(S[i].t >= m.v[1] /\ S[i].t < m.v[2])}) >= 2
    [] m.n = "season_wday" -> \A w \in 0..6 :
         Cardinality({n \in N : Weekday(n) = w}) >= 2
    [] m.n = "season_month" -> \A k \in 1..12 : \E n \in N : Month(n) = k
    [] m.n = "dummy" ->
         /\ \E i \in 1..Len(S) : Hit(m.v, S[i])
         /\ Cardinality({S[i].x : i \in {j \in 1..Len(S) : ~Hit(m.v, S[j])}}) >= 2
    [] m.n = "calendar" ->
         \A k \in 1..LeafParams("calendar", m.v) :
           \E n \in N : CalendarHits(m.v, n)[k]
    [] OTHER -> TRUE
=============================================================================
