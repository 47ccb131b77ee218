---------------------------- MODULE Conf_Pipeline ----------------------------
(***************************************************************************)
(* Forecast calls.                                                         *)
(*  Run:  a call with input e.rows, configuration e.cfg, ... and the       *)
(*        tables it returned:                                              *)
(*        e.meta  [s, nm, st, np, cost, aic, rank, best, am]               *)
(*        e.data  [s, t, y, w, nm, act, best]                              *)
(*        e.fc    [s, t, y, nm, act]                                       *)
(*        (cost: 288 times the cost; aic in units of 10^-3; rank: dense    *)
(*        rank of the error criterion, 0 if missing)                       *)
(*  Pair: two calls e.a, e.b and digests e.ra, e.rb of the results of one  *)
(*        source: sequences of [k, v]                                      *)
(*  Aic:  direct calls of the error criterion                              *)
(*  Auto, Lists: direct calls of the functions that generate candidates    *)
(*  Fit:  a call of fit_model; e.seen what the model's validation saw      *)
(***************************************************************************)
EXTENDS Pipeline, Json
VARIABLES l, st

S0 == <<>>
A(s, e) == s

Term(C, nm) == CHOOSE m \in C : m.nm = nm
HasNaive(m) == SomeLeaf(m, LAMBDA a : a.n \in {"naive", "snaive"})
Act(D) == Filter(D, LAMBDA d : d.act)
Fits(D) == Filter(D, LAMBDA d : ~d.act)
TY(D) == [i \in 1..Len(D) |-> [t |-> D[i].t, y |-> D[i].y]]

SourceClauses(e, s) ==
  LET R0 == OfSource(e.rows, s)
      R == From(R0, e.start)
      U == UsableRows(R)
      n == Len(U)
      C == Candidates(e, R0)
      meta == Filter(e.meta, LAMBDA d : d.s = s)
      data == Filter(e.data, LAMBDA d : d.s = s)
      fc == Filter(e.fc, LAMBDA d : d.s = s)
      known == Filter(meta, LAMBDA d : d.nm \in Names(C))
      \* (without usable samples nothing may be fitted: "status: truthful";
      \* what such a fit would hold is not looked at)
      fit == IF U = <<>> THEN <<>> ELSE Filter(known, LAMBDA d : d.st = "FIT")
      best == Filter(meta, LAMBDA d : d.best)
      f0 == IF e.dated THEN DetectFreq(Ts(R0)) ELSE ""
      grid == Grid(e.dated, f0, R, e.p, e.q)
      TermOf(d) == Term(C, d.nm)
      Free0(d) == PParams(TermOf(d)) = 0
      fitrows(nm) == Filter(Fits(data), LAMBDA d : d.nm = nm)
      \* candidates that certainly fit, all of them without parameters
      sure == {m \in C : Statuses(m, e.dated, U) = {"FIT"}}
      simple == \A m \in C : "FIT" \in Statuses(m, e.dated, U) => PParams(m) = 0
      cand ==
        {<<"cand: every candidate is tried and reported once",
           IF e.all THEN /\ {d.nm : d \in Range(meta)} = Names(C)
                         /\ Len(meta) = Cardinality(Names(C))
           ELSE {d.nm : d \in Range(meta)} \subseteq Names(C)>>,
         <<"cand: recorded composition",
           e.cfg.mode \in {"add", "mult"} =>
             \A d \in Range(meta) : d.am = e.cfg.mode>>,
         <<"cand: recorded composition, both",
           e.cfg.mode = "both" =>
             LET T == Ts(Weighted(R))
                 adds == Names(CandidatesIn(e.cfg, e.dated, SpanOf(T), SpacingOf(T), f0, "add"))
             IN \A d \in Range(known) : d.nm \notin Names(NaiveIn(e.cfg, f0)) =>
                  d.am = (IF d.nm \in adds THEN "add" ELSE "mult")>>}
  IN
  IF e.only = "cand" THEN cand ELSE cand \cup
  {<<"status: truthful",
     \A d \in Range(known) : d.st \in Statuses(TermOf(d), e.dated, U)>>,
   <<"status: only fitted candidates have rows",
     \A d \in Range(Fits(data)) : \E m \in Range(meta) :
        m.nm = d.nm /\ m.st = "FIT">>,
   <<"status: fits have parameters, cost, criterion",
     \A d \in Range(fit) : /\ d.np = PParams(TermOf(d))
                           /\ d.cost \notin {NAN, PINF, NINF}
                           /\ d.aic \notin {NAN, PINF} /\ d.rank > 0>>,
   <<"best: one if some candidate fits",
     /\ Len(best) <= 1
     /\ (e.all => (Len(best) = 1) = (fit # <<>>))
     /\ (sure # {} => Len(best) = 1)>>,
   <<"best: fitted, with least criterion",
     \A b \in Range(best) :
        b.st = "FIT" /\ \A d \in Range(fit) : b.rank <= d.rank>>,
   <<"best: least error among models without parameters",
     \A b \in Range(best) :
       CostDefined(U) /\ b.nm \in Names(C) /\ Free0(b) =>
         \A m \in sure : PParams(m) = 0 =>
           Cost288(TermOf(b), e.dated, R) <= Cost288(m, e.dated, R)>>,
   <<"best: only the best model is reported",
     ~e.all => /\ \A d \in Range(meta) : d.best
               /\ \A d \in Range(Fits(data)) : d.best>>,
   <<"best: rows of the best model are marked",
     \A d \in Range(data) : d.best = (~d.act /\ \E b \in Range(best) : b.nm = d.nm)>>,
   <<"aic: cost of models without parameters",
     CostDefined(U) => \A d \in Range(fit) :
       Free0(d) => d.cost = Cost288(TermOf(d), e.dated, R)>>,
   <<"aic: criterion of the fits",
     \A d \in Range(fit) :
       LET k == PParams(TermOf(d))
           c == IF Free0(d) /\ CostDefined(U) THEN Cost288(TermOf(d), e.dated, R) ELSE d.cost
       IN IF c = 0 /\ Free0(d) /\ CostDefined(U)
          THEN Abs(d.aic - AicPerfect3(n, k)) <= AicTolPerfect(n)
          ELSE ((IsNum(c) /\ c >= 30000) \/ (Free0(d) /\ CostDefined(U))) =>
            Abs(d.aic - Aic3(c, 288, n, k)) <= AicTol(n)>>,
   <<"out: actuals",
     SameBag([i \in 1..Len(Act(data)) |-> LET d == Act(data)[i] IN
                <<d.t, d.y, d.w, d.nm>>],
             [i \in 1..Len(R) |-> <<R[i].t, R[i].y,
                IF e.weighted THEN R[i].w ELSE <<1>>, "actuals">>])>>,
   <<"out: rows of fits without parameters",
     \A d \in Range(fit) : (e.all \/ d.best) /\ Free0(d) =>
       LET x == FitRows(TermOf(d), e.dated, R, grid) IN
         TY(fitrows(d.nm)) = [i \in 1..Len(x) |-> [t |-> x[i].t, y |-> Some(x[i].y)]]>>,
   <<"out: rows of fits with parameters",
     \A d \in Range(fit) : (e.all \/ d.best) /\ ~Free0(d) /\ ~HasNaive(TermOf(d)) =>
       LET x == fitrows(d.nm) IN
         /\ [i \in 1..Len(x) |-> x[i].t] = grid
         /\ \A i \in 1..Len(x) : IsSome(x[i].y)>>,
   <<"out: weight of forecast rows", \A d \in Range(Fits(data)) : d.w = <<1>>>>,
   <<"fc: actuals with a value",
     SameBag([i \in 1..Len(Act(fc)) |-> LET d == Act(fc)[i] IN <<d.t, d.y, d.nm>>],
             LET V == Filter(R, LAMBDA r : IsSome(r.y)) IN
               [i \in 1..Len(V) |-> <<V[i].t, V[i].y, "actuals">>])>>,
   <<"fc: rows of the best model",
     LET x == Filter(Fits(data), LAMBDA d : d.best)
         y == Fits(fc)
         \* a best model without any value at a usable sample has no
         \* prediction interval
         some == \E i \in 1..Len(x) : \E j \in 1..Len(U) : x[i].t = U[j].t
     IN IF ~some THEN y = <<>>
        ELSE SameBag([i \in 1..Len(y) |-> <<y[i].t, y[i].y, y[i].nm>>],
                     [i \in 1..Len(x) |-> <<x[i].t, x[i].y, x[i].nm>>])>>}

RunClauses(e) ==
  LET S == Sources(e.rows)
      cl == UNION {SourceClauses(e, s) : s \in S}
  \* e.only: nothing but the candidates is checked (sparse series, whose
  \* forecasts are long)
  IN IF e.only = "cand" THEN {<<c[1], \A d \in cl : d[1] = c[1] => d[2]>> : c \in cl} ELSE
     {<<c[1], \A d \in cl : d[1] = c[1] => d[2]>> : c \in cl}
     \cup {<<"src: every source, and no other, is in the output",
             /\ {d.s : d \in Range(e.data)} = {s \in S : From(OfSource(e.rows, s), e.start) # <<>>}
                  \cup {d.s : d \in Range(Fits(e.data))}
             /\ {d.s : d \in Range(e.data)} \subseteq S
             /\ {d.s : d \in Range(e.fc)} \subseteq S
             /\ {d.s : d \in Range(e.meta)} \subseteq S
             /\ (e.all => {d.s : d \in Range(e.meta)} = S)>>,
           <<"best: the simplified output is the forecast table", e.simple>>}

InputOf(c) == [dated |-> c.dated, start |-> c.start, cfg |-> c.cfg]
ViewOf(c) == View(InputOf(c), OfSource(c.rows, c.src))
CandOf(c) == Candidates(InputOf(c), OfSource(c.rows, c.src))
Same(e) ==
  /\ e.a.dated = e.b.dated /\ e.a.p = e.b.p /\ e.a.q = e.b.q
  /\ ViewOf(e.a) = ViewOf(e.b)
  /\ CandOf(e.a) = CandOf(e.b)
PairClauses(e) ==
  {<<e.pre \o "the specification judges the inputs equivalent", Same(e)>>,
   <<e.pre \o "same results for equivalent inputs",
     Same(e) =>
       /\ Len(e.ra) = Len(e.rb)
       /\ \A i \in 1..Min2(Len(e.ra), Len(e.rb)) :
            /\ e.ra[i].k = e.rb[i].k
            /\ IF e.tol = 0 THEN e.ra[i].v = e.rb[i].v
               ELSE IsNum(e.ra[i].v) /\ IsNum(e.rb[i].v) =>
                      Abs(e.ra[i].v - e.rb[i].v) <=
                        e.tol + Abs(e.rb[i].v) \div 100000>>}

\* e.c: [num, den, n, k, err (rejected), unit, v (in units of 10^-unit),
\* rank]; num = 0: perfect
\* The cost of c is num / den * 10^-ex: n * ex * ln(10) less, in 1 / 1000 and
\* in units
Less3(c) == c.n * c.ex * 2302 + (c.n * c.ex * 585) \div 1000
Less0(c) == (c.n * c.ex * 2302) \div 1000 + (c.n * c.ex * 585) \div 1000000
AicClauses(e) ==
  {<<"aic: rejected exactly if n <= k + 1",
     \A c \in Range(e.c) : c.err = AicRejected(c.n, c.k)>>,
   <<"aic: value",
     \A c \in Range(e.c) : ~c.err /\ ~AicRejected(c.n, c.k) =>
        IF c.num = 0 /\ c.k = 1 THEN c.v = NINF
        ELSE IF c.unit = 0
        THEN Abs(c.v - IF c.num = 0 THEN AicPerfect0(c.n, c.k)
                       ELSE Aic0(c.num, c.den, c.n, c.k) - Less0(c)) <= AicTol0(c.n)
        ELSE IF c.num = 0 THEN Abs(c.v - AicPerfect3(c.n, c.k)) <= AicTolPerfect(c.n)
        ELSE Abs(c.v - (Aic3(c.num, c.den, c.n, c.k) - Less3(c))) <= AicTol(c.n)>>,
   <<"aic: a perfect fit is better than any other",
     \A i, j \in 1..Len(e.c) :
       LET a == e.c[i] b == e.c[j] IN
       ~a.err /\ ~b.err /\ a.n = b.n /\ a.k = b.k /\ a.num = 0 /\ b.num > 0 =>
         a.rank < b.rank>>,
   <<"aic: increasing in the error and in the number of parameters",
     \A i, j \in 1..Len(e.c) :
       LET a == e.c[i] b == e.c[j] IN
       ~a.err /\ ~b.err /\ a.n = b.n /\ a.num > 0 =>
         \* num/den compared without overflow: same den
         /\ (a.k = b.k /\ a.den = b.den /\ a.num < b.num => a.rank < b.rank)
         /\ (a.k < b.k /\ a.den = b.den /\ a.num = b.num => a.rank < b.rank)>>}

AutoClauses(e) ==
  LET T == Range(e.t) IN
  {<<"cand: automatic seasonality",
     /\ Range(e.out) = Names(AutoSeason(e.op, SpanOf(T), SpacingOf(T), e.weekly, e.yearly))
     /\ Len(e.out) = Cardinality(Range(e.out))>>}
ListClauses(e) ==
  {<<"cand: combinations of trend and seasonality",
     /\ Range(e.out) = Names(GetLists(Range(e.trend), Range(e.season), e.op))
     /\ Len(e.out) = Cardinality(Range(e.out))>>}

FitClauses(e) ==
  LET U == UsableRows(e.rows) IN
  {<<"ign: the fit uses exactly the usable samples",
     e.called = (Len(U) >= e.np + 2) /\
     (e.called => SameBag(e.seen, [i \in 1..Len(U) |-> <<U[i].x, Get(U[i].y), U[i].t>>]))>>}

\* e.v: values of the criterion; e.out: the places of the reported key
KeyClauses(e) ==
  {<<"best: key of the least value", e.out = BestPlace(e.v)>>}

C(s, e) == CASE e.ev = "Run" -> RunClauses(e)
             [] e.ev = "Key" -> KeyClauses(e)
             [] e.ev = "Pair" -> PairClauses(e)
             [] e.ev = "Aic" -> AicClauses(e)
             [] e.ev = "Auto" -> AutoClauses(e)
             [] e.ev = "Lists" -> ListClauses(e)
             [] e.ev = "Fit" -> FitClauses(e)

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
