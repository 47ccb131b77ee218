------------------------------ MODULE Conf_Axis ------------------------------
(***************************************************************************)
(* Binds Freq to the implementation: frequency detection, forecast grids   *)
(* and gap filling recorded from anticipy.                                 *)
(***************************************************************************)
EXTENDS Freq, Json

VARIABLES l, st

S0 == 0
A(s, e) == s

\* --- frequency and grids (C11) -----------------------------------------
FreqClauses(e) ==
  {<<"freq: detected frequency", e.res = DetectFreq(Range(e.dates))>>}

DatedGrid(f, t0, t1, p, q, g) ==
  LET u == UsedFreq(f, t0)
  IN IsGrid(u, t0, t1, Horizon(u, p, q), g)

NumGrid(a, b, p, q, g) ==
  /\ Len(g) = b - a + 1 + NumericHorizon(p, q)
  /\ \A i \in 1..Len(g) : g[i] = a + i - 1

GridClauses(e) ==
  IF e.dated THEN
    {<<"grid: dates", DatedGrid(e.f, e.t0, e.t1, e.p, e.q, e.g)>>,
     <<"grid: x", /\ Len(e.x) = Len(e.g)
                  /\ \A i \in 1..Len(e.x) :
                       e.x[i] = e.x0 + (e.g[i] - e.t0) \div DAY>>}
  ELSE
    {<<"grid: index", NumGrid(e.t0, e.t1, e.p, e.q, e.g)>>,
     <<"grid: x", /\ Len(e.x) = Len(e.g)
                  /\ \A i \in 1..Len(e.x) : e.x[i] = e.x0 + i - 1>>}

\* A forecast: e.rows are the samples [t, x, w] of the source, e.start the
\* optional first date to use, e.g and e.v the dates and values of a model
\* that returns its x
RunClauses(e) ==
  LET rows == Filter(e.rows, LAMBDA r : e.start = None \/ r.t >= Get(e.start))
      used == Filter(rows, LAMBDA r : r.w > 0)
      t0 == MinS({r.t : r \in Range(used)})
      x0 == MinS({r.x : r \in Range(used)})
      t1 == MaxS({r.t : r \in Range(rows)})
      f == DetectFreq({r.t : r \in Range(e.rows)})
  IN IF e.dated /\ ~ \A r \in Range(e.rows) : OnGrid(UsedFreq(f, t0), t0, r.t)
     THEN {} \* the grid of the detected frequency is not the one sampled
     ELSE IF e.dated THEN
       {<<"run: dates", DatedGrid(f, t0, t1, e.p, e.q, e.g)>>,
        <<"run: covers samples",
          \A r \in Range(used) : r.t \in Range(e.g)>>,
        <<"run: x", \A i \in 1..Len(e.g) : e.v[i] = x0 + (e.g[i] - t0) \div DAY>>}
     ELSE
       {<<"run: index", NumGrid(x0, MaxS({r.x : r \in Range(rows)}), e.p, e.q, e.g)>>,
        <<"run: x", \A i \in 1..Len(e.g) : e.v[i] = e.g[i]>>}

\* --- gap filling (C12) ---------------------------------------------------
FillClauses(e) ==
  LET pos(r) == IF e.dated THEN r.t ELSE r.x
      all == [i \in 1..Len(e.rows) |-> pos(e.rows[i])]
      ts == Distinct(all)
      dup == Len(ts) < Len(all)
  IN IF Regular(e.dated, ts) THEN
       {<<"fill: regular series is unchanged",
          /\ e.res = "rows"
          /\ Len(e.out) = Len(e.rows)
          /\ \A i \in 1..Len(e.rows) :
               /\ e.out[i].t = e.rows[i].t /\ e.out[i].x = e.rows[i].x
               /\ e.out[i].y = MapS(LAMBDA v : 1000 * v, e.rows[i].y)
               /\ e.out[i].m \in {<<>>, <<FALSE>>}>>}
     ELSE IF dup THEN {<<"fill: repeated dates are rejected", e.res = "ValueError">>}
     ELSE
       LET g == FillGrid(e.dated, ts)
           \* row of the original series at each grid point, 0 if none
           orig == [i \in 1..Len(g) |->
                      IF \E j \in 1..Len(all) : all[j] = g[i]
                      THEN CHOOSE j \in 1..Len(all) : all[j] = g[i] ELSE 0]
           prev(i, K) == {k \in 1..(i-1) : k \in K}
           next(i, K) == {k \in (i+1)..Len(g) : k \in K}
           haveX == {i \in 1..Len(g) : orig[i] > 0}
           haveY == {i \in haveX : e.rows[orig[i]].y # None}
           yOf(i) == Get(e.rows[orig[i]].y)
           xOf(i) == e.rows[orig[i]].x
           ok == e.res = "rows" /\ Len(e.out) = Len(g)
       IN {<<"fill: one row per grid point",
             ok /\ \A i \in 1..Len(g) : pos(e.out[i]) = g[i]>>,
           <<"fill: samples keep their x and value",
             ok => \A i \in haveX :
               /\ e.out[i].x = xOf(i)
               /\ (i \in haveY => e.out[i].y = <<1000 * yOf(i)>>)>>,
           <<"fill: x of added rows",
             ok /\ e.dated => \A i \in (1..Len(g)) \ haveX :
               LET a == MaxS(prev(i, haveX))
                   b == MinS(next(i, haveX))
                   v == Interp(xOf(a), xOf(b), a, i, b)
               IN e.out[i].x \in {v[1] \div v[2], (v[1] + v[2] - 1) \div v[2],
                                  (v[1] \div v[2]) - (IF v[1] % v[2] = 0 THEN 1 ELSE 0)}>>,
           <<"fill: value of added rows",
             ok => \A i \in (1..Len(g)) \ haveY :
               LET p == prev(i, haveY)
                   n == next(i, haveY)
               IN IF ~e.interp \/ p = {} THEN e.out[i].y = None
                  ELSE IF n = {} THEN e.out[i].y = <<1000 * yOf(MaxS(p))>>
                  ELSE LET a == MaxS(p)
                           b == MinS(n)
                           v == Interp(yOf(a), yOf(b), a, i, b)
                       IN /\ IsSome(e.out[i].y)
                          /\ Abs(Get(e.out[i].y) * v[2] - 1000 * v[1]) <= v[2]>>,
           <<"fill: mask of added rows",
             ok /\ e.mask => \A i \in 1..Len(g) : e.out[i].m = <<i \notin haveX>>>>}

\* Filling a filled series changes nothing
RefillClauses(e) == {<<"fill: idempotent", e.same>>}

C(s, e) == CASE e.ev = "Freq" -> FreqClauses(e)
             [] e.ev = "Grid" -> GridClauses(e)
             [] e.ev = "Run" -> RunClauses(e)
             [] e.ev = "Fill" -> FillClauses(e)
             [] e.ev = "Refill" -> RefillClauses(e)

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
