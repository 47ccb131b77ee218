----------------------------- MODULE Conf_Naive -----------------------------
(***************************************************************************)
(* Naive forecasts recorded from anticipy.                                 *)
(*  Run:  a forecast of rows with the naive models; e.grid are all its     *)
(*        dates, e.out its rows [t, y] of model e.model, e.cost2 twice its *)
(*        cost                                                             *)
(*  Eval: the model function at the instants e.grid, values e.out          *)
(***************************************************************************)
EXTENDS Naive, Json

VARIABLES l, st

S0 == 0
A(s, e) == s

\* Samples before the start are not usable
Used(e) == [i \in 1..Len(e.rows) |->
              [e.rows[i] EXCEPT !.w = IF e.start # None /\ e.rows[i].t < Get(e.start)
                                      THEN 0 ELSE @]]

RunClauses(e) ==
  LET rows == Used(e)
      want == {[t |-> t, y |-> PredictAt(e.model, rows, t)] : t \in Range(e.grid)}
      got == {[t |-> e.out[i].t, y |-> <<e.out[i].y>>] : i \in 1..Len(e.out)}
  IN {<<"naive: values", {r \in want : IsSome(r.y)} = got>>,
      <<"naive: one row per date", Cardinality({r.t : r \in got}) = Len(e.out)>>,
      \* (samples that share x are weighted down: see Fit)
      <<"naive: cost",
        StrictlyIncreasing([i \in 1..Len(rows) |-> rows[i].x]) =>
          e.cost2 = NaiveCost(e.model, rows)>>}

EvalClauses(e) ==
  {<<"naive: evaluation",
     /\ Len(e.out) = Len(e.grid)
     /\ \A i \in 1..Len(e.grid) : e.out[i] = PredictAt(e.model, e.rows, e.grid[i])>>}

C(s, e) == CASE e.ev = "Run" -> RunClauses(e)
             [] e.ev = "Eval" -> EvalClauses(e)

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
