---------------------------- MODULE MC_Pipeline ----------------------------
(***************************************************************************)
(* Design of a forecast call as a process: rows of several sources arrive  *)
(* in any interleaving; then, source by source, the candidates are tried   *)
(* in any order, with solver outcomes that are only constrained by their   *)
(* statuses; a running best is kept; the tables grow.  The invariants      *)
(* relate the tables to the definitions of Pipeline, which look at one     *)
(* source, and only at its usable samples.                                 *)
(***************************************************************************)
EXTENDS Pipeline, Json

CONSTANTS Slots, Second, Starts   \* samples of source 1, of source 2, starts

Day0 == 18000 * DAY
P(nm, np, b, checks, fail) ==
  Leaf("probe", nm, [np |-> np, a |-> 0, b |-> b, w |-> 0, init |-> 1,
                     bounds |-> <<-9, 9>>, checks |-> checks, cache |-> <<>>,
                     fail |-> fail])
PZ == P("zero", 0, 0, <<>>, 0)      \* always fits if there are two samples
PX == P("xpos", 0, 1, <<"positive">>, 0)   \* rejects nonpositive values
P1 == P("one", 1, 0, <<>>, 0)       \* one parameter
PF == P("bad", 1, 0, <<>>, 1)       \* the solver fails
Cfg == [trend |-> Some(<<PZ, PX, P1, PF>>), season |-> Some(<<>>),
        weekly |-> None, yearly |-> None, naive |-> None, cal |-> None,
        mode |-> "add"]

\* What a slot (a day of a source) may hold
Kinds == {"none", "small", "big", "null", "off", "unweighted"}
RowOf(s, i, k) ==
  [s |-> s, t |-> Day0 + (i - 1) * DAY, x |-> i + 1,
   y |-> CASE k = "small" -> Some(3) [] k = "big" -> Some(8)
           [] k = "null" -> None [] OTHER -> Some(-7),
   w |-> CASE k \in {"small", "null"} -> Some(1) [] k = "big" -> Some(2)
           [] k = "off" -> Some(0) [] OTHER -> None]

SecondQuick == {<<"small", "off">>, <<"null">>, <<>>}
StartsQuick == {None, Some(Day0 + DAY)}
SecondFull == {<<"small", "off">>, <<>>, <<"null">>, <<"big", "small", "small">>}

VARIABLES rows, left, start, src, todo, meta, best, done
vars == <<rows, left, start, src, todo, meta, best, done>>
In == [dated |-> TRUE, start |-> start, cfg |-> Cfg]

Plan(ks, s) == LET f[i \in 0..Len(ks)] ==
                     IF i = 0 THEN <<>> ELSE IF ks[i] = "none" THEN f[i-1]
                     ELSE Append(f[i-1], RowOf(s, i, ks[i]))
               IN f[Len(ks)]
Init ==
  /\ \E a \in [1..Slots -> Kinds], b \in Second :
       /\ Plan(a, 1) # <<>>
       /\ left = <<Plan(a, 1), Plan(b, 2)>>
  /\ start \in Starts
  /\ rows = <<>> /\ src = 0 /\ todo = {} /\ meta = {} /\ best = None
  /\ done = {}

\* (the interleaving matters to routing only: one source may be arbitrarily
\* ahead of the other)
Arrive(s) ==
  /\ src = 0 /\ left[s] # <<>>
  /\ rows' = Append(rows, Head(left[s]))
  /\ left' = [left EXCEPT ![s] = Tail(@)]
  /\ UNCHANGED <<start, src, todo, meta, best, done>>
AllIn == \A s \in 1..2 : left[s] = <<>>
R0(s) == OfSource(rows, s)
U(s) == UsableRows(From(R0(s), start))
Open(s) ==
  /\ AllIn /\ src = 0 /\ s \in Sources(rows) \ done
  /\ \A z \in Sources(rows) \ done : s <= z
  /\ src' = s /\ todo' = Candidates(In, R0(s)) /\ best' = None
  /\ UNCHANGED <<rows, left, start, meta, done>>
Try(m) ==
  /\ src # 0 /\ m \in todo
  /\ todo' = todo \ {m}
  /\ \E v \in Statuses(m, TRUE, U(src)) :
     \E aic \in IF v # "FIT" THEN {0} ELSE IF PParams(m) = 0
                THEN {Cost288(m, TRUE, From(R0(src), start))} ELSE {-1, 5000} :
       LET d == [s |-> src, nm |-> m.nm, st |-> v, aic |-> aic] IN
         /\ meta' = meta \cup {d}
         /\ best' = IF v = "FIT" /\ (best = None \/ aic < Get(best).aic)
                    THEN Some(d) ELSE best
  /\ UNCHANGED <<rows, left, start, src, done>>
Close ==
  /\ src # 0 /\ todo = {}
  /\ done' = done \cup {src}
  /\ meta' = {[d EXCEPT !.s = d.s] : d \in meta}
  /\ src' = 0
  /\ (done' = Sources(rows) =>
        PrintT("@@SCN " \o ToJson([rows |-> rows, start |-> start])))
  /\ UNCHANGED <<rows, left, start, todo, best>>
ArriveA == \E s \in 1..2 : Arrive(s)
OpenA == \E s \in 1..2 : Open(s)
TryA == \E m \in todo : Try(m)
Next == ArriveA \/ OpenA \/ TryA \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* The call always ends, whatever candidates fail
Ends == <>(AllIn /\ done = Sources(rows))

Tried(s) == {d \in meta : d.s = s}
\* Candidates are tried once; none is forgotten
OnceInv ==
  /\ \A d, e \in meta : d.s = e.s /\ d.nm = e.nm => d = e
  /\ \A s \in done : {d.nm : d \in Tried(s)} = Names(Candidates(In, R0(s)))
\* The running best is the least of the fits so far
BestInv ==
  src # 0 =>
    LET F == {d \in Tried(src) : d.st = "FIT"} IN
      /\ (best = None) = (F = {})
      /\ best # None => Get(best) \in F /\ \A d \in F : Get(best).aic <= d.aic
\* Statuses follow the samples of the source alone
TruthInv ==
  \A s \in done : \A d \in Tried(s) :
    /\ (U(s) = <<>>) = (d.st = "EMPTY_TS")
    /\ (d.st = "FIT" => Len(U(s)) >= 2)
    /\ (d.nm = "bad" => d.st # "FIT")
    /\ (d.nm = "xpos" /\ d.st = "FIT" => \A i \in 1..Len(U(s)) : Get(U(s)[i].y) > 0)
\* Ignored samples have no influence: with their values erased the view, the
\* candidates, errors and forecasts are the same; and so they are if ignored
\* samples between used ones are removed
Erased(R) == Mat([i \in 1..Len(R) |->
  IF \/ W(R[i]) <= 0 \/ (IsSome(start) /\ R[i].t < Get(start))
  THEN [R[i] EXCEPT !.y = Some(99)] ELSE R[i]])
Inner(R) ==
  LET V == Ts(Weighted(From(R, start))) IN
    Filter(R, LAMBDA r : W(r) > 0 \/ V = {} \/ r.t < MinS(V) \/ r.t > MaxS(V))
SameResult(R, Q1) ==
  LET a == From(R, start) b == From(Q1, start) IN
  /\ View(In, R) = View(In, Q1)
  /\ Candidates(In, R) = Candidates(In, Q1)
  /\ \A m \in {PZ, PX, SnaiveM, NaiveM} :
       /\ Statuses(m, TRUE, UsableRows(a)) = Statuses(m, TRUE, UsableRows(b))
       /\ Weighted(a) # <<>> =>
            /\ Cost288(m, TRUE, a) = Cost288(m, TRUE, b)
            /\ LET f == DetectFreq(Ts(R))
                   g == Grid(TRUE, f, a, 1, 73)
               IN /\ g = Grid(TRUE, DetectFreq(Ts(Q1)), b, 1, 73)
                  /\ FitRows(m, TRUE, a, g) = FitRows(m, TRUE, b, g)
EraseInv == src = 0 /\ AllIn /\ done = {} => \A s \in Sources(rows) :
              SameResult(R0(s), Erased(R0(s)))
InnerInv == src = 0 /\ AllIn /\ done = {} => \A s \in Sources(rows) :
              LET R == R0(s) Q1 == Inner(R) IN
                View(In, R) = View(In, Q1) => SameResult(R, Q1)
\* Routing: the samples of a source do not depend on the interleaving
RouteInv == AllIn => \A s \in 1..2 :
  LET R == R0(s) IN \A i \in 1..(Len(R) - 1) : R[i].t < R[i+1].t
=============================================================================
