-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* Plots of forecast tables.                                               *)
(*                                                                         *)
(* A table is a record [src, q, rows]: whether it has a source column, the *)
(* percentages of the interval columns (5 stands for q5 and q95) and rows  *)
(* [s, t, y, a, b]: source, instant, optional value, whether it is an      *)
(* actual, and one pair of optional bounds per element of q.               *)
(***************************************************************************)
EXTENDS Prelude

Formats == {"png", "html", "jupyter"}
Sources(T) ==
  LET n == Mat(Filter(T.rows, LAMBDA r : TRUE)) IN
  Distinct(Mat([i \in 1..Len(n) |-> n[i].s]))
\* one panel per source, if there is more than one
Multi(T) == T.src /\ Len(Sources(T)) > 1

\* Panels are laid out row by row in a grid that is about square
CeilSqrt(n) == CHOOSE k \in 0..n : k * k >= n /\ (k = 0 \/ (k - 1) * (k - 1) < n)
GridRows(n) == CeilSqrt(n)
GridCols(n) == LET r == GridRows(n) IN (n + r - 1) \div r
Position(k, n) == <<((k - 1) \div GridCols(n)) + 1, ((k - 1) % GridCols(n)) + 1>>

Pts(rows) == Mat([i \in 1..Len(rows) |-> <<rows[i].t, rows[i].y>>])
\* qs: the percentages to show
Panel(T, of, title, pos, qs) ==
  LET act == Mat(Filter(T.rows, LAMBDA r : r.a /\ (of = None \/ Get(of) = r.s)))
      fc == Mat(Filter(T.rows, LAMBDA r : ~r.a /\ (of = None \/ Get(of) = r.s)))
      js == Mat(Filter([j \in 1..Len(T.q) |-> j], LAMBDA j : T.q[j] \in Range(qs)))
  IN [title |-> title, pos |-> pos, act |-> Pts(act), fc |-> Pts(fc),
      \* lower and upper bounds
      bands |-> Mat([k \in 1..Len(js) |->
        Mat([w \in 1..2 |-> Mat([i \in 1..Len(fc) |-> <<fc[i].t, fc[i].b[js[k]][w]>>])])])]

\* qs: <<>> without intervals
Panels(T, qs) ==
  IF Multi(T) THEN
    LET s == Sources(T) n == Len(s) IN
    Mat([k \in 1..n |-> Panel(T, Some(s[k]), Some(s[k]), Position(k, n), qs)])
  ELSE <<Panel(T, None, None, <<1, 1>>, qs)>>

\* Does a call produce a plot ?
Produces(fmt, path, library) ==
  fmt \in Formats /\ library /\ (fmt # "jupyter" => path)
=============================================================================
