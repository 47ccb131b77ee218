---------------------------- MODULE Conf_Interval ---------------------------
(***************************************************************************)
(* Pi: intervals added to a table.  e.rows its rows, with source s;        *)
(*     e.out the rows of the result: [s, t, y, act, nm, q] with q the      *)
(*     distances of the four quantiles to y in 1/U, optional; e.p the two  *)
(*     percentages; e.cols whether the quantile columns have their names;  *)
(*     e.days the widening period; e.eps the tolerance (in 1/1000) for the *)
(*     number of draws; e.same whether the input was left alone            *)
(* Same: e.a, e.b the distances for two tables that should have the same   *)
(*     intervals up to the factor e.by, drawn with the same seed           *)
(***************************************************************************)
EXTENDS Interval, Json
VARIABLES l, st
S0 == <<>>
A(s, e) == s

Key(r) == [s |-> r.s, t |-> r.t, y |-> r.y, act |-> r.act, nm |-> r.nm]
NoQ == <<None, None, None, None>>

\* What is expected and what is there, for one source
Account(e, s) ==
  LET R == Mat(Filter(e.rows, LAMBDA r : r.s = s))
      res == Residuals(R)
      c == Centred(res)
      f == Mat(Forecasts(R))
      last == IF res = <<>> THEN 0 ELSE MaxS({r.t : r \in Range(Usable(R))})
      per == Period(e.days, e.dated, R)
      place == \* 1, 2, ... for the rows after the last usable actual
        LET g[j \in 0..Len(f)] == IF j = 0 THEN 0
                                  ELSE g[j-1] + (IF f[j].t > last THEN 1 ELSE 0)
        IN Mat([j \in 1..Len(f) |-> g[j]])
      draws == Mat([j \in 1..Len(f) |-> IF place[j] = 0 THEN 1
                                         ELSE Accumulated(place[j], per) + 1])
      got == Mat(Filter(e.out, LAMBDA r : r.s = s))
      gf == Mat(SortBy(LAMBDA r : r.t, Filter(got, LAMBDA r : ~r.act)))
      keep == Actuals(R) \o (IF c = <<>> THEN <<>> ELSE f)
      kept == SameBag(Mat([j \in 1..Len(got) |-> Key(got[j])]),
                      Mat([j \in 1..Len(keep) |-> Key(keep[j])]))
      wide == {j \in 1..Len(gf) : IsSome(gf[j].y)}
      numbers == c = <<>> \/ \A j \in wide : \A v \in Range(gf[j].q) :
                                IsSome(v) /\ IsNum(Get(v))
      ok == kept /\ numbers /\ c # <<>>
      n == Len(c)
      K == IF ok THEN {k \in {draws[j] : j \in wide} : Feasible(n, k)} ELSE {}
  IN [kept |-> kept, numbers |-> numbers, ok |-> ok, c |-> c, n |-> n,
      wide |-> wide, draws |-> draws,
      \* rows with the same distribution and values are judged once
      cells |-> IF ~ok THEN {} ELSE
        {<<draws[j], h, Get(gf[j].q[h])>> : j \in wide, h \in 1..4},
      lines |-> IF ~ok THEN {} ELSE {gf[j].q : j \in wide},
      dists |-> Mat2([k \in K |-> DistN(c, k)])]

PiClauses(e) ==
  LET S == {r.s : r \in Range(e.rows)}
      X == {Account(e, s) : s \in S}
      P == <<e.p[1], 100 - e.p[1], e.p[2], 100 - e.p[2]>>
  IN
  {<<"pi: rows kept", (\A x \in X : x.kept) /\ \A r \in Range(e.out) : r.s \in S>>,
   <<"pi: input unchanged", e.same>>,
   <<"pi: quantile columns", e.cols \/ \A x \in X : x.c = <<>>>>,
   <<"pi: nothing for actuals and missing forecasts",
     \A r \in Range(e.out) : r.act \/ r.y = None => r.q = NoQ>>,
   <<"pi: quantiles are numbers", \A x \in X : x.kept => x.numbers>>,
   <<"pi: quantiles ordered",
     \A x \in X : \A q \in x.lines : \A g, h \in 1..4 :
        P[g] <= P[h] => Get(q[g]) <= Get(q[h])>>,
   <<"pi: within the bounds of the accumulated residuals",
     \A x \in X : \A z \in x.cells : InSupport(x.c, z[1], z[3])>>,
   <<"pi: quantiles of the accumulated residuals",
     \A x \in X : \A z \in x.cells :
        z[1] \in DOMAIN x.dists =>
          IsQuantile(x.dists[z[1]], x.n, z[1], z[3], P[z[2]], e.eps)>>}

SameClauses(e) ==
  {<<"same: intervals", Len(e.a) = Len(e.b) /\
     \A j \in 1..Len(e.a) :
       /\ Len(e.a[j]) = Len(e.b[j])
       /\ (Len(e.a[j]) = 1 => Abs(e.by * Get(e.a[j]) - Get(e.b[j])) <= e.by + 1)>>}

C(s, e) == CASE e.ev = "Pi" -> PiClauses(e)
             [] e.ev = "Same" -> SameClauses(e)

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
