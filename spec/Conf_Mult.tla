------------------------------ MODULE Conf_Mult -----------------------------
(***************************************************************************)
(* Mult: the decision e.out ("mult"/"add") for a series e.rows, e.dated,   *)
(*       whose least squares line is e.line; e.same input unchanged        *)
(* Auto: a forecast with automatic composition: digests e.auto of it and   *)
(*       e.adds, e.mults of those with explicit composition; e.rec the     *)
(*       recorded compositions of the fits                                 *)
(***************************************************************************)
EXTENDS Mult, Json
VARIABLES l, st
S0 == <<>>
A(s, e) == s

MultClauses(e) ==
  LET Q == Mat(Used(e.rows))
      o == Composition(e.rows, e.dated, e.line)
  IN {<<"mult: the line is the fit", Excluded(Q, e.dated) \/ IsFit(Q, e.line)>>,
      <<"mult: input unchanged", e.same>>,
      <<"mult: decision", o = "open" \/ e.out = o>>}
AutoClauses(e) ==
  LET o == Composition(e.rows, e.dated, e.line) IN
  {<<"auto: candidates and results of the decision",
     CASE o = "add" -> e.auto = e.adds
       [] o = "mult" -> e.auto = e.mults
       [] OTHER -> e.auto \in {e.adds, e.mults}>>,
   <<"auto: recorded composition",
     o = "open" \/ \A r \in Range(e.rec) : r \in {o, "naive"}>>}

C(s, e) == CASE e.ev = "Mult" -> MultClauses(e)
             [] e.ev = "Auto" -> AutoClauses(e)

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
