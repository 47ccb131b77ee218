------------------------------ MODULE Conf_Plot ------------------------------
(***************************************************************************)
(* Plot: a call of plot_forecast on table e.T with format e.fmt; e.path    *)
(*   whether it names a file, e.library whether the plotting library is    *)
(*   there, e.qs the percentages of the intervals asked for; e.rc the      *)
(*   optional result, e.files the files that appeared, e.base the name     *)
(*   asked for, e.panels what the figure shows, e.same whether the table   *)
(*   is as before.  e.areas: intervals are recorded as sets of points.     *)
(***************************************************************************)
EXTENDS Plot, Json
VARIABLES l, st
S0 == <<>>
A(s, e) == s

Ok(v, w) == IF v = None \/ w = None THEN v = w
            ELSE IsNum(Get(v)) /\ Abs(Get(v) - 1000 * Get(w)) <= 1
SameLine(a, b) == Len(a) = Len(b) /\
  \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ Ok(a[i][2], b[i][2])
\* points of the area between the bounds
Area(b) == LET both == {i \in 1..Len(b[1]) : b[1][i][2] # None /\ b[2][i][2] # None} IN
  {<<b[w][i][1], 1000 * Get(b[w][i][2])>> : i \in both, w \in 1..2}
SameArea(a, b) == Len(a) = Len(b) /\
  {Range(a[j]) : j \in 1..Len(a)} = {Area(b[j]) : j \in 1..Len(b)}
SameBands(a, b) == Len(a) = Len(b) /\
  \A j \in 1..Len(b), w \in 1..2 : SameLine(a[j][w], b[j][w])

Clauses1(e) ==
  {<<"plot: the table is unchanged", e.same>>} \cup
  IF ~Produces(e.fmt, e.path, e.library) THEN
    {<<"plot: reports failure", e.rc # <<0>> >>,
     <<"plot: no output", e.files = <<>> /\ e.panels = <<>> >>}
  ELSE
    LET p == Panels(e.T, e.qs) n == Min2(Len(p), Len(e.panels)) IN
    {<<"plot: reports success", e.rc = <<0>> >>,
     <<"plot: output file", e.files = IF e.fmt = "jupyter" THEN <<>>
                                      ELSE <<e.base \o "." \o e.fmt>> >>,
     <<"plot: one panel per source", Len(e.panels) = Len(p)>>,
     <<"plot: titles", \A k \in 1..n : e.panels[k].title = p[k].title>>,
     <<"plot: layout", \A k \in 1..n : e.panels[k].pos = p[k].pos>>,
     <<"plot: actuals", \A k \in 1..n : SameLine(e.panels[k].act, p[k].act)>>,
     <<"plot: forecast", \A k \in 1..n : SameLine(e.panels[k].fc, p[k].fc)>>,
     <<"plot: intervals", \A k \in 1..n :
         IF e.areas THEN SameArea(e.panels[k].bands, p[k].bands)
         ELSE SameBands(e.panels[k].bands, p[k].bands)>>}
C(s, e) == Clauses1(e)
INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
