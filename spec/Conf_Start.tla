----------------------------- MODULE Conf_Start -----------------------------
(***************************************************************************)
(* Init: the model e.m in role e.r and samples e.rows: e.ok whether it     *)
(*      accepts them; if so e.p, e.fin its initial parameters (rounded     *)
(*      down to 10^-5, and whether they are finite), e.lo, e.hi its        *)
(*      bounds, and e.loy, e.hiy these in the unit of the values.          *)
(*      e.mode "none": without samples; "x": without values                *)
(* Fit: e.status, e.ran (evaluations of the model), e.p: the fit of e.m to *)
(*      e.rows, some of which may be unusable; e.name: its name            *)
(***************************************************************************)
EXTENDS Start, Json
VARIABLES l, st
S0 == <<>>
A(s, e) == s

INF == 1999999999
IsB(b, v, vy, inf) ==
  IF b = None THEN v = inf
  ELSE IF b[1] = "abs" THEN v = 100000 * b[2]
  ELSE Abs(vy - 100000 * b[2]) <= 1
InitClauses(e) ==
  LET U == Mat([i \in 1..Len(e.rows) |->
             [x |-> e.rows[i].x, t |-> e.rows[i].t, d |-> e.rows[i].d,
              y |-> Get(e.rows[i].y)]])
      n == NParams(e.m)
      \* bounds on the positions of a ramp follow from x alone
      b == IF e.mode = "series" THEN TermBounds(e.m, U)
           ELSE TermBounds(e.m, <<>>)
  IN
  IF e.mode = "series" /\ e.ok # Accepts(e.m, e.dated, U)
  THEN {<<"start: accepted series", FALSE>>}
  ELSE IF ~e.ok THEN {}
  ELSE
  {<<"start: number of initial parameters", Len(e.p) = n>>,
   <<"start: number of bounds", Len(e.lo) = n /\ Len(e.hi) = n>>,
   <<"start: finite", \A j \in 1..Len(e.fin) : e.fin[j]>>,
   <<"start: within the bounds of the model",
      \A j \in 1..Min2(Len(e.p), Min2(Len(e.lo), Len(e.hi))) :
        e.lo[j] <= e.p[j] /\ e.p[j] <= e.hi[j]>>,
   <<"start: documented bounds",
      (e.mode # "x" /\ Len(e.lo) = n /\ Len(e.hi) = n) => \A j \in 1..n :
        /\ IsB(b[j][1], e.lo[j], e.loy[j], 0 - INF)
        /\ IsB(b[j][2], e.hi[j], e.hiy[j], INF)>>}

FitClauses(e) ==
  LET V == UsableRows(e.rows)
      U == Mat([i \in 1..Len(V) |->
             [x |-> V[i].x, t |-> V[i].t, d |-> V[i].d, y |-> Get(V[i].y)]])
      ok == Accepts(e.m, e.dated, U)
      long == Cardinality(Xs(U)) >= NParams(e.m) + 2
  IN IF ~(ok /\ long) THEN {} ELSE
  {<<"start: the fit is tried", e.status \in {"FIT", "NO-FIT"}>>,
   <<"start: the solver starts", Finite(e.m, U) /\ NParams(e.m) > 0 => e.ran>>,
   <<"start: linear fits succeed", Succeeds(e.m) => e.status = "FIT">>,
   <<"start: signs", e.status = "FIT" =>
       LET f == Fitted(e.m, U) IN
       /\ Len(e.p) = Len(f)
       /\ \A j \in 1..Min2(Len(e.p), Len(f)) :
            /\ Signs(e.m)[f[j]] = 1 => e.p[j] >= 0
            /\ Signs(e.m)[f[j]] = -1 => e.p[j] <= 0>>,
   <<"start: fitted parameters are numbers", e.status = "FIT" => e.fin>>}

C(s, e) == CASE e.ev = "Init" -> InitClauses(e)
             [] e.ev = "Fit" -> FitClauses(e)

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
