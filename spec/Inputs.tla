------------------------------- MODULE Inputs -------------------------------
(***************************************************************************)
(* Lists of forecast inputs.  A result is None (nothing to forecast) or a  *)
(* record of tables, each a sequence of rows.  The result of a list is the *)
(* concatenation of the results of its inputs, in order.                   *)
(***************************************************************************)
EXTENDS Prelude

Tables == {"forecast", "data", "metadata", "optimize_info"}
Empty4 == [t \in Tables |-> <<>>]
Join(a, b) == IF a = None THEN b ELSE IF b = None THEN a
              ELSE Some([t \in Tables |-> Get(a)[t] \o Get(b)[t]])
\* parts: sequence of optional results
Concat(parts) == FoldL(LAMBDA acc, p : Join(acc, p), None, parts)
\* What an input means if parts of its configuration are left out
DefaultTrend(trend) == IF trend = None THEN <<"linear">> ELSE Get(trend)
=============================================================================
