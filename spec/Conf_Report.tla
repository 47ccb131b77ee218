----------------------------- MODULE Conf_Report -----------------------------
(***************************************************************************)
(*  Rep:  a forecast call with input e.rows ... and the tables it returned *)
(*        e.meta  [s, nm, st, fit, cost, u, lo, hi, freq, a, b, am, sl, pc,*)
(*                 np, best]   cost in units of 1 / u^2; a, b: range       *)
(*        e.opt   [s, nm, ok, same, sl, pc, msg]                           *)
(*        e.data  [s, nm, t, x, v, again, sl] rows of the fits; values in  *)
(*                units of 1 / u                                           *)
(*        e.act   [s, sl]                                                  *)
(*  Fit:  a direct call of fit_model: lo, hi, a, b, freq, given; long: the *)
(*        long source is made of these facts; src: the given source        *)
(*        (sl, pc: checksums of the long source and of the parameters)     *)
(***************************************************************************)
EXTENDS Report, Json
VARIABLES l, st

S0 == <<>>
A(s, e) == s
HasNaive(m) == SomeLeaf(m, LAMBDA a : a.n \in {"naive", "snaive"})

SourceClauses(e, s) ==
  LET R0 == OfSource(e.rows, s)
      R == From(R0, e.start)
      U == UsableRows(R)
      C == Candidates(e, R0)
      meta == Filter(e.meta, LAMBDA d : d.s = s)
      opt == Filter(e.opt, LAMBDA d : d.s = s)
      data == Filter(e.data, LAMBDA d : d.s = s)
      f0 == IF e.dated THEN DetectFreq(Ts(R0)) ELSE ""
      TermOf(nm) == CHOOSE m \in C : m.nm = nm
      rowsof(nm) == Filter(data, LAMBDA d : d.nm = nm)
      optof(nm) == Filter(opt, LAMBDA d : d.nm = nm)
      fit == Filter(meta, LAMBDA d : d.st = "FIT" /\ d.nm \in Names(C))
  IN
  {<<"rep: one optimizer row per candidate, whatever is reported",
     \E m \in (IF e.cfg.mode = "auto" THEN {"add", "mult"} ELSE {e.cfg.mode}) :
       LET N == Names(Candidates([e EXCEPT !.cfg.mode = m], R0)) IN
         /\ Len(opt) = Cardinality(N)
         /\ {o.nm : o \in Range(opt)} = N>>,
   <<"rep: metadata and optimizer agree",
     \A d \in Range(meta) : \A o \in Range(optof(d.nm)) :
        /\ o.ok = d.fit /\ o.same /\ o.sl = d.sl /\ o.pc = d.pc>>,
   <<"rep: fitted means status FIT",
     \A d \in Range(meta) : d.fit = (d.st = "FIT")>>,
   <<"rep: weights of the samples",
     \A d \in Range(meta) : <<d.lo, d.hi>> =
        LET w == WeightRange(R, e.weighted) IN IF w = None THEN <<NAN, NAN>> ELSE Get(w)>>,
   <<"rep: sampling frequency", \A d \in Range(meta) : d.freq = f0>>,
   <<"rep: first and last usable sample",
     LET r == UsedRange(U, e.dated) IN
       \A d \in Range(meta) : <<d.a, d.b>> = IF r = None THEN <<NAN, NAN>> ELSE Get(r)>>,
   <<"rep: long source of a fit and of its rows",
     \A d \in Range(fit) : \A x \in Range(rowsof(d.nm)) : x.sl = d.sl>>,
   <<"rep: actuals share one long source",
     Cardinality({x.sl : x \in {z \in Range(e.act) : z.s = s}}) <= 1>>,
   <<"rep: x of the rows",
     U # <<>> => \A x \in Range(data) : x.x = XFrom(e.dated, T0(R), X0(R), x.t)>>,
   <<"rep: rows are the values of the reported model and parameters",
     \A d \in Range(fit) : d.u > 0 =>
       \A x \in Range(rowsof(d.nm)) : Abs(x.v - x.again) <= 1>>,
   <<"rep: cost is that of the rows",
     \A d \in Range(fit) :
       d.u > 0 /\ (e.all \/ d.best) /\ Divides(U, e.K) =>
         LET V == ValueMap(rowsof(d.nm)) IN
           /\ HasNaive(TermOf(d.nm)) \/ \A i \in 1..Len(U) : U[i].t \in DOMAIN V
           /\ Abs(2 * e.K * e.K * d.cost - Cost2(U, e.K, d.u, V)) <=
                Cost2Err(U, e.K, d.u, V) + 2 * e.K * e.K>>}

FitClauses(e) ==
  LET U == UsableRows(e.rows)
      V == Filter(e.rows, LAMBDA r : IsSome(r.y))
  IN
  {<<"rep: weights of the samples of a fit",
     <<e.lo, e.hi>> = LET w == WeightRange(V, e.weighted) IN
                        IF w = None THEN <<NAN, NAN>> ELSE Get(w)>>,
   <<"rep: first and last usable sample of a fit",
     LET r == UsedRange(U, e.dated) IN
       <<e.a, e.b>> = IF r = None THEN <<NAN, NAN>> ELSE Get(r)>>,
   <<"rep: long source of a fit", e.long /\ e.src /\ e.freq = e.given>>}

RunClauses(e) ==
  LET cl == UNION {SourceClauses(e, z) : z \in Sources(e.rows)} IN
    {<<c[1], \A d \in cl : d[1] = c[1] => d[2]>> : c \in cl}

C(s, e) == IF e.ev = "Fit" THEN FitClauses(e) ELSE RunClauses(e)

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
