---------------------------- MODULE Conf_Outlier ----------------------------
(***************************************************************************)
(* Mask: a call of the detection: e.y, e.window, e.res "ok"/"rejected",    *)
(*       e.dup repeated axis values, e.step, e.spike masks, e.same input   *)
(* Used: a forecast that looks for outliers: e.rows the [y, w] of the      *)
(*       series from the start date on, e.weights those of its output,     *)
(*       e.ra, e.rb digests of it and of the forecast of the series with   *)
(*       these weights                                                     *)
(***************************************************************************)
EXTENDS Outlier, Json
VARIABLES l, st
S0 == <<>>
A(s, e) == s
True(m) == {i \in 1..Len(m) : m[i]}

MaskClauses(e) ==
  {<<"mask: input unchanged", e.same>>,
   <<"mask: rejected exactly if dates repeat", (e.res = "rejected") = e.dup>>}
  \cup IF e.res # "ok" THEN {} ELSE
  {<<"mask: one entry per sample",
     Len(e.step) = Len(e.y) /\ Len(e.spike) = Len(e.y)>>,
   <<"mask: steps", True(e.step) = StepMask(e.y, e.window)>>,
   <<"mask: spikes", LET S == SpikeMask(e.y, e.window) T == True(e.spike) IN
       (S \ T) \cup (T \ S) \subseteq Doubtful(e.y, e.window)>>}

UsedClauses(e) ==
  {<<"used: rejected exactly if dates repeat", (e.res = "rejected") = e.dup>>}
  \cup IF e.res # "ok" THEN {} ELSE
  LET S == SpikeRows(e.rows, 3) IN
  {<<"used: spikes have weight zero, others keep their weight",
     /\ Len(e.weights) = Len(e.rows)
     /\ \A i \in 1..Min2(Len(e.rows), Len(e.weights)) :
          i \in DoubtfulRows(e.rows, 3) \/
          e.weights[i] = IF i \in S THEN Some(0) ELSE e.rows[i].w>>,
   <<"used: forecast of the other samples", e.ra = e.rb>>}

C(s, e) == CASE e.ev = "Mask" -> MaskClauses(e)
             [] e.ev = "Used" -> UsedClauses(e)

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
