----------------------------- MODULE Conf_Model -----------------------------
(***************************************************************************)
(* Models built and evaluated with anticipy.  The state is the pool of     *)
(* terms built so far.                                                     *)
(*  Make:  the model built by operation e.op ("leaf", "add", "mult",       *)
(*         "fix") from the pool; e.np, e.nm, e.cv what it reports about    *)
(*         itself; e.pool what all the models report (before and after)    *)
(*  Eval:  model e.m in role e.r with parameters e.p at the samples e.s:   *)
(*         outputs e.out, and with cached variables e.outc (as encoded     *)
(*         strings e.raw, e.rawc)                                          *)
(*  Formula: the same for a leaf                                           *)
(*  Sigmoid, Fourier: outputs times 10^4                                   *)
(*  Valid: does e.m accept samples whose properties are e.has              *)
(*  Guess: initial parameters and bounds                                   *)
(*  Order: comparisons of models e.a, e.b                                  *)
(*  Mask:  calendar and dummy models (see C17)                             *)
(*  FitPair: fits with and without cache                                   *)
(*  FixFit: forecast of a series with a model some of whose parameters     *)
(*         have coinciding bounds                                          *)
(***************************************************************************)
EXTENDS Models, Json

VARIABLES l, st

S0 == <<>>

Term(s, e) ==
  CASE e.op = "leaf" -> Leaf(e.n, e.nm0, e.v)
    [] e.op \in {"add", "mult"} -> Compose(e.op, s[e.i], s[e.j])
    [] e.op = "fix" -> Fix(s[e.i], e.v, e.nm)

A(s, e) == IF e.ev = "Make" THEN Append(s, Term(s, e)) ELSE s

\* sum() and prod() of models fold from the left
MakeClauses(s, e) ==
  LET m == Term(s, e) IN
  {<<(IF HasFix(m) THEN "fix: " ELSE "alg: ") \o "parameter count", e.np = NParams(m)>>,
   <<"alg: name", e.nm = m.nm>>,
   <<"cache: variables of the model",
     IF HasFix(m) THEN Range(e.cv) \subseteq CacheOf(m)
     ELSE Range(e.cv) = CacheOf(m)>>,
   <<"alg: parts unchanged", e.before = e.after>>}

Pre(m) == IF m.k = "leaf" THEN "formula: "
          ELSE IF HasFix(m) THEN "fix: " ELSE "alg: "
EvalClauses(s, e) ==
  LET m == s[e.m] IN
  {<<Pre(m) \o "value",
     "value" \in Range(e.want) =>
       /\ Len(e.out) = Len(e.s)
       /\ \A i \in 1..Len(e.s) : e.out[i] = Eval(m, e.r, e.p, e.s[i])>>,
   <<"cache: same output", e.raw = e.rawc>>,
   <<"cache: one entry per variable",
     IF HasFix(m) THEN Range(e.keys) \subseteq CacheOf(m)
     ELSE /\ Range(e.keys) = CacheOf(m) /\ Len(e.keys) = Cardinality(CacheOf(m))>>,
   <<Pre(m) \o "inputs unchanged", e.same>>}

FormulaClauses(e) ==
  LET m == Leaf(e.n, e.n, e.v) IN
  {<<"formula: one value per sample", Len(e.out) = Len(e.s)>>,
   <<"formula: value", \A i \in 1..Min2(Len(e.out), Len(e.s)) :
        CASE e.n = "sigmoid" -> SigmoidOk(e.r, e.p, e.s[i].x, e.out[i])
          [] e.n = "season_fourier_yearly" -> FourierOk(e.p, e.s[i].d, e.out[i])
          [] OTHER -> e.out[i] = LeafEval(m, e.r, e.p, e.s[i])>>}

MaskClauses(e) ==
  LET m == Leaf(e.n, e.n, e.v) IN
  {<<"mask: one value per sample", Len(e.out) = Len(e.s)>>,
   <<"mask: parameters", e.np = LeafParams(e.n, e.v)>>,
   <<"mask: hits", \A i \in 1..Min2(Len(e.out), Len(e.s)) :
        e.out[i] = LeafEval(m, e.r, e.p, e.s[i])>>}

ValidClauses(s, e) ==
  {<<"alg: validations", e.ok = (ChecksOf(s[e.m]) \subseteq Range(e.has))>>}

GuessClauses(s, e) ==
  LET m == s[e.m] g == IF HasFix(m) THEN "fix: " ELSE "alg: " IN
  {<<g \o "initial values", e.init = InitParams(m, e.r)>>,
   <<g \o "lower bounds", e.lo = Bounds(m, 1)>>,
   <<g \o "upper bounds", e.hi = Bounds(m, 2)>>}

OrderClauses(s, e) ==
  {<<"alg: name determines equality",
     /\ e.eq = (e.ra = e.rb) /\ e.ne = (e.ra # e.rb)
     /\ (e.ra = e.rb => e.hash)
     /\ e.rank = (s[e.a].nm = s[e.b].nm)>>,
   <<"alg: name determines order", e.lt = (e.ra < e.rb)>>}

FitPairClauses(e) == {<<"cache: same fit", e.a = e.b>>}

\* e.v: the values of the parameters whose bounds coincide; e.p the fitted
\* parameters; e.out the forecast at e.s
FixFitClauses(s, e) ==
  LET m == Fix(s[e.m], e.v, "") IN
  {<<"fix: fitted parameters", Len(e.p) = Len(Free(e.v))>>,
   <<"fix: forecast",
     /\ Len(e.out) = Len(e.s)
     /\ Len(e.p) = Len(Free(e.v)) =>
          \A i \in 1..Len(e.s) : e.out[i] = Eval(m, 0, e.p, e.s[i])>>,
   <<"fix: fit recovers the free parameters", e.p = e.want>>}

C(s, e) == CASE e.ev = "Make" -> MakeClauses(s, e)
             [] e.ev = "Eval" -> EvalClauses(s, e)
             [] e.ev = "Formula" -> FormulaClauses(e)
             [] e.ev = "Mask" -> MaskClauses(e)
             [] e.ev = "Valid" -> ValidClauses(s, e)
             [] e.ev = "Guess" -> GuessClauses(s, e)
             [] e.ev = "Order" -> OrderClauses(s, e)
             [] e.ev = "FitPair" -> FitPairClauses(e)
             [] e.ev = "FixFit" -> FixFitClauses(s, e)

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
