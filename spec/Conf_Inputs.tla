----------------------------- MODULE Conf_Inputs -----------------------------
(***************************************************************************)
(*  List: a call with a list of inputs: e.out its result, e.parts those of *)
(*        the inputs on their own (optional; tables of row checksums),     *)
(*        e.numbered: rows are numbered from 0                             *)
(*  Table: e.a the result of a table of several sources, e.b of the list   *)
(*        of its sources                                                   *)
(*  Default: e.out of an input without trend, e.alone with e.trend         *)
(***************************************************************************)
EXTENDS Inputs, Json
VARIABLES l, st
S0 == <<>>
A(s, e) == s

C(s, e) ==
  CASE e.ev = "List" ->
    LET x == Concat(e.parts) IN
    {<<"list: nothing if no input has samples", (e.out = None) = (x = None)>>,
     <<"list: tables of the inputs in order",
       e.out # None /\ x # None => \A t \in Tables : Get(e.out)[t] = Get(x)[t]>>,
     <<"list: rows are numbered", e.numbered>>}
  [] e.ev = "Table" ->
    {<<"list: same as a table of these sources", e.a = e.b>>}
  [] e.ev = "Default" ->
    {<<"list: default trend", e.trend = DefaultTrend(None) => e.out = e.alone>>,
     <<"list: the trend that was given", e.trend # DefaultTrend(None) => e.out = e.alone>>}

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
