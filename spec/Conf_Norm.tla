------------------------------ MODULE Conf_Norm ------------------------------
(***************************************************************************)
(*  Norm: normalization of a table or series described by e.d.             *)
(*        e.res  "ok", "none" (no result), or "error"                      *)
(*        e.out, e.cols  the table; e.same  the input was not modified     *)
(*        e.valued  the input has a column for the values                  *)
(*  Same: forecasts of two tables, described by e.a, e.b, and digests      *)
(*        e.ra, e.rb of the results: sequences of [k, v]                   *)
(***************************************************************************)
EXTENDS Norm, Json
VARIABLES l, st

S0 == <<>>
A(s, e) == s

NormClauses(e) ==
  {<<"norm: input unchanged", e.same>>,
   <<"norm: a table without values is rejected", ~e.valued => e.res = "error">>,
   <<"norm: no result for an empty input",
     e.valued => (e.res = "none") = (e.d.rows = <<>>) /\ e.res # "error">>}
  \cup IF e.res # "ok" THEN {} ELSE
  {<<"norm: columns",
     /\ Range(e.cols) = OutCols(e.d)
     /\ Len(e.cols) = Cardinality(OutCols(e.d))>>,
   <<"norm: every sample once, unchanged, with its x",
     SameBag(e.out, Samples(e.d))>>,
   <<"norm: ordered by source and x", Ordered(e.out)>>}

Close(a, b, tol) ==
  IF tol = 0 THEN a = b
  ELSE IsNum(a) /\ IsNum(b) => Abs(a - b) <= tol + Abs(b) \div 100000
SameClauses(e) ==
  {<<"same: the specification judges the inputs equivalent",
     IF e.shift THEN SameUpToShift(e.a, e.b) ELSE SameSamples(e.a, e.b)>>,
   <<"same: same results for equivalent inputs",
     /\ Len(e.ra) = Len(e.rb)
     /\ \A i \in 1..Min2(Len(e.ra), Len(e.rb)) :
          e.ra[i].k = e.rb[i].k /\ Close(e.ra[i].v, e.rb[i].v, e.tol)>>}

C(s, e) == CASE e.ev = "Norm" -> NormClauses(e)
             [] e.ev = "Same" -> SameClauses(e)

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
