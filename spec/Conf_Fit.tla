------------------------------ MODULE Conf_Fit ------------------------------
(***************************************************************************)
(* Fit: model e.m fitted to rows e.rows within bounds e.lo, e.hi; e.p are  *)
(*      optimal parameters, e.unique whether there are no others;          *)
(*      e.status, e.params (times 1000), e.pred predictions at the usable  *)
(*      rows (times 1000) and e.cost72 what the implementation returned,   *)
(*      in the unit of the values (and weights) of the scenario            *)
(* Bound: parameters e.params of a fit and the bounds e.lo, e.hi of the    *)
(*      model (times 10^6, rounded down), e.mlo, e.mhi those that the      *)
(*      documentation promises                                             *)
(* Recover: a forecast over e.pp/e.pq years of a series of frequency e.f   *)
(*      (dated or not) that follows e.m with parameters e.p; e.t0, e.t1    *)
(*      its first and last sample, e.g the samples and e.out the values    *)
(*      (times 1000) of the best forecast, e.act those it reports as       *)
(*      actuals, e.tol tolerance                                           *)
(***************************************************************************)
EXTENDS Recover, Json
VARIABLES l, st
S0 == <<>>
A(s, e) == s

Close(v, w, tol) == IsNum(v) /\ Abs(v - 1000 * w) <= tol

FitClauses(e) ==
  LET U == Mat(UsableRows(e.rows)) IN
  {<<"fit: fitted", e.status = "FIT">>} \cup
  IF e.status # "FIT" THEN {} ELSE
  LET c == Cost72(e.m, e.p, U) IN
  {<<"fit: witness", Optimal(e.m, e.p, e.lo, e.hi, U)>>,
   <<"fit: number of parameters", Len(e.params) = NParams(e.m)>>,
   <<"fit: optimal parameters", e.unique => Len(e.params) = Len(e.p) /\
       \A j \in 1..Len(e.p) : Close(e.params[j], e.p[j], e.tol)>>,
   <<"fit: one prediction per row", Len(e.pred) = Len(U)>>,
   <<"fit: optimal predictions", \A i \in 1..Min2(Len(U), Len(e.pred)) :
       Close(e.pred[i], Eval(e.m, 0, e.p, U[i]), e.tol)>>,
   <<"fit: cost of the optimum",
      IsNum(e.cost72) /\ Abs(e.cost72 - c) <= 1 + c \div 5000>>}

\* (parameters whose bounds coincide are fixed instead of fitted)
FreeOf(e, v) == LET js == Filter([j \in 1..Len(e.lo) |-> j],
                                 LAMBDA j : e.lo[j] # e.hi[j])
                IN Mat([i \in 1..Len(js) |-> v[js[i]]])
InBounds(p, lo, hi) ==
  Len(p) = Len(lo) /\ Len(p) = Len(hi) /\
  \A j \in 1..Len(p) :
    /\ p[j] # NAN
    /\ (IsSome(lo[j]) => p[j] >= Get(lo[j]))
    /\ (IsSome(hi[j]) => p[j] <= Get(hi[j]))
BoundClauses(e) ==
  IF e.status # "FIT" THEN {} ELSE
  {<<"bound: within the bounds of the model", InBounds(e.params, FreeOf(e, e.lo), FreeOf(e, e.hi))>>,
   <<"bound: within the documented bounds", InBounds(e.params, FreeOf(e, e.mlo), FreeOf(e, e.mhi))>>}

RecoverClauses(e) ==
  {<<"recover: forecast of every sample and the horizon",
     /\ Len(e.g) > 0 /\ Len(e.out) = Len(e.g)
     /\ IF e.snaive
        \* the seasonal naive model repeats the actuals of a week earlier
        THEN /\ StrictlyIncreasing(e.g)
             /\ \A i \in 1..Len(e.act) : LET t == e.act[i][1] + 7 * DAY IN
                  t <= e.t1 + DAY * Horizon(e.f, e.pp, e.pq) => t \in Range(e.g)
             /\ LET h == Mat(Filter(e.g, LAMBDA t : t > e.t1)) IN
                Len(h) = Horizon(e.f, e.pp, e.pq) /\
                \A i \in 1..Len(h) : h[i] = e.t1 + i * DAY
        ELSE ForecastGrid(e.dated, e.f, e.t0, e.t1, e.pp, e.pq, e.g)>>,
   <<"recover: follows the formula", \A i \in 1..Min2(Len(e.g), Len(e.out)) :
       Close(e.out[i], Eval(e.m, 0, e.p, SampleAt(e.dated, e.g[i], e.t0)), e.tol)>>,
   <<"recover: actuals", \A i \in 1..Len(e.act) :
       Close(e.act[i][2], Eval(e.m, 0, e.p, SampleAt(e.dated, e.act[i][1], e.t0)), 1)>>}

C(s, e) == CASE e.ev = "Fit" -> FitClauses(e)
             [] e.ev = "Bound" -> BoundClauses(e)
             [] e.ev = "Recover" -> RecoverClauses(e)

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
