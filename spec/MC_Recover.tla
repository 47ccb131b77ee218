----------------------------- MODULE MC_Recover -----------------------------
(***************************************************************************)
(* A series without noise grows sample by sample on the grid of its        *)
(* frequency, with gaps; then its forecast is drawn up.                    *)
(***************************************************************************)
EXTENDS Recover, Json
CONSTANTS Fams, Starts, Seeds, Sizes, Horizons
VARIABLES fam, f, t0, seed, size, at, S, pc, hz

Lin == Leaf("linear", "linear", <<>>)
Wday == Leaf("season_wday", "season_wday", <<>>)
Step(d) == Leaf("step_date", "step", <<d * DAY>>)
\* the break is one third into the series, or so
Term(fm, d) ==
  CASE fm = "lin" -> Lin
    [] fm = "lin+step" -> Compose("add", Lin, Step(d))
    [] fm = "lin+spike" -> Compose("add", Lin,
          Leaf("spike_date", "spike", <<d * DAY, (d + 9) * DAY>>))
    [] fm = "lin+wday" -> Compose("add", Lin, Wday)
    [] fm = "lin+step+wday" -> Compose("add", Compose("add", Lin, Step(d)), Wday)
    [] fm = "lin*wday" -> Compose("mult", Lin, Wday)
    [] fm = "wday" -> Compose("add", Leaf("constant", "constant", <<>>), Wday)
    [] fm = "lin+uk" -> Compose("add", Lin, Leaf("calendar", "calendar_uk", "calendar_uk"))
    [] fm = "lin+us" -> Compose("add", Lin, Leaf("calendar", "calendar_us", "calendar_us"))
    [] fm = "lin+ita" -> Compose("add", Lin, Leaf("calendar", "calendar_ita", "calendar_ita"))
    [] fm = "lin+wday+uk" -> Compose("add", Compose("add", Lin, Wday),
          Leaf("calendar", "calendar_uk", "calendar_uk"))
    [] fm = "lin+workdays" -> Compose("add", Lin,
          Leaf("dummy", "season_wday_2", [kind |-> "weekday<5", l |-> <<>>]))
    [] fm = "lin+monthstart" -> Compose("add", Lin,
          Leaf("dummy", "dummy_month_start", [kind |-> "month_start", l |-> <<>>]))
    [] fm = "lin+month" -> Compose("add", Lin, Leaf("season_month", "season_month", <<>>))
    [] fm = "lin+dummy" -> Compose("add", Lin,
          Leaf("dummy", "dx", [kind |-> "x", l |-> <<d, d + 2, d + 5>>]))
FreqsOf(fm) ==
  CASE fm \in {"lin", "lin+step", "lin+spike"} -> {"D", "W", "MS", "M", "H", ""}
    [] fm = "lin+month" -> {"MS", "M"}
    [] fm = "lin+dummy" -> {"", "D"}
    [] fm \in {"wday", "lin+wday", "lin*wday"} -> {"D", "H"}
    [] OTHER -> {"D"}
Dated == f # ""
\* the frequency by its full name, and the first point of its grid
FullF == IF f = "W" THEN WeeklyOn(DayOf(t0)) ELSE f
StartOf(g, d) ==
  CASE g = "" -> d % 7
    [] g = "MS" -> AddMonths(d, 0, FALSE) * DAY
    [] g = "M" -> AddMonths(d, 0, TRUE) * DAY
    [] OTHER -> d * DAY
NextOf(t) == IF Dated THEN NextPoint(FullF, t) ELSE t + 1
\* Lehmer's generator
Rand(s) == (s * 171) % 30269
RECURSIVE RandK(_, _)
RandK(s, k) == IF k = 0 THEN s ELSE RandK(Rand(s), k - 1)

Long(fm) == fm \in {"lin+uk", "lin+us", "lin+ita", "lin+wday+uk"}
CalName == CASE fam = "lin+us" -> "calendar_us" [] fam = "lin+ita" -> "calendar_ita" [] OTHER -> "calendar_uk"
Target == CASE Long(fam) -> 400 + size [] f = "H" -> 400 + size
            [] fam = "lin+month" -> 14 + size \div 3
            [] OTHER -> size
BreakDay == LET k == DayOf(t0) + (Target \div 3) *
                       (CASE f = "W" -> 7 [] f \in {"MS", "M"} -> 30 [] f = "H" -> 0 [] OTHER -> 1)
            IN IF Dated THEN (IF f = "H" THEN k + 5 ELSE k) ELSE t0 + Target \div 3
\* (dummies of x count from the Monday)
M == Term(fam, IF fam = "lin+dummy" /\ Dated THEN Target \div 3 ELSE BreakDay)
\* Parameters: small numbers; factors of a product are at least 1
ParamsOf(m, s) ==
  Mat([j \in 1..NParams(m) |->
    IF fam = "lin*wday" THEN IF j = 1 THEN RandK(s, 2) % 4
                         ELSE IF j = 2 THEN 20 + (RandK(s, 3) % 90)
                         ELSE 1 + (RandK(s, j + 3) % 4)
    ELSE CASE j = 1 /\ fam # "wday" -> (RandK(s, 2) % 21) - 10
           [] j = 2 /\ fam # "wday" -> (RandK(s, 3) % 400) - 150
           \* effects are not too small
           [] OTHER -> LET v == (RandK(s, j + 3) % 61) - 30 IN IF v < 0 THEN v - 20 ELSE v + 20])
P == ParamsOf(M, seed)

Init == /\ fam \in Fams /\ f \in FreqsOf(fam) /\ \E d \in Starts : t0 = StartOf(f, d)
        /\ seed \in Seeds /\ size \in Sizes /\ (Long(fam) => size = MinS(Sizes)) /\ hz \in Horizons
        /\ at = t0 /\ S = <<t0>> /\ pc = Rand(seed)
\* gaps: never at the first two or the last two samples
Gappy == seed % 3 = 0
\* k more samples (long series grow by several at a time)
RECURSIVE More(_, _)
More(s, k) ==
  IF k = 0 \/ Len(s.S) >= Target THEN s
  ELSE LET n == NextOf(s.at)
           gap == Gappy /\ Len(s.S) > 2 /\ s.pc % 7 = 0 /\ Len(s.S) < Target - 2
       IN More([at |-> n, pc |-> Rand(s.pc),
                S |-> IF gap THEN s.S ELSE Append(s.S, n)], k - 1)
Grow == /\ Len(S) < Target
        /\ LET s == More([at |-> at, pc |-> pc, S |-> S], IF Target > 100 THEN 60 ELSE 5)
           IN at' = s.at /\ pc' = s.pc /\ S' = s.S
        /\ UNCHANGED <<fam, f, t0, seed, size, hz>>
Next == Grow
Done == Len(S) = Target

\* some samples of a long series suffice
Few(X) == Mat(Filter(X, LAMBDA s : s.x < 16 \/ Range(CalendarHits(CalName, s.d)) # {FALSE}))
Samples == Mat([i \in 1..Len(S) |-> SampleAt(Dated, S[i], t0)])
Identified == Shown(M, Samples)
Future == LET k == IF Dated THEN 14 ELSE 5
              g[i \in 1..k] == IF i = 1 THEN NextOf(at) ELSE NextOf(g[i-1])
          IN Mat([i \in 1..k |-> SampleAt(Dated, g[i], t0)])
\* Parameters that differ from P in one or two places
Others == {[P EXCEPT ![j] = @ + a, ![k] = @ + b] :
             j \in 1..Len(P), k \in 1..Len(P), a \in {-1, 1, 2}, b \in IF Target > 100 THEN {0, 1} ELSE {-1, 0, 1}}
\* Samples that show all effects determine the forecast
Determined ==
  Done /\ Identified /\ seed % 5 = 0 =>
    LET all == Samples
        X == IF Long(fam) THEN Few(all) ELSE all
        Y == Future
        v == Mat([i \in 1..Len(X) |-> Eval(M, 0, P, X[i])])
        u == Mat([i \in 1..Len(Y) |-> Eval(M, 0, P, Y[i])])
    IN \A q \in Others :
      (\A i \in 1..Len(X) : Eval(M, 0, q, X[i]) = v[i]) =>
      (\A i \in 1..Len(Y) : Eval(M, 0, q, Y[i]) = u[i])
\* ... and its parameters are those of the best fit, for any weights
Best ==
  Done /\ Affine(M) /\ seed % 5 = 1 =>
    LET X == IF Long(fam) THEN Few(Samples) ELSE Samples
        R == Mat([i \in 1..Len(X) |->
               LET s == X[i] IN
               [x |-> s.x, t |-> s.t, d |-> s.d, y |-> Some(Eval(M, 0, P, s)),
                w |-> Some(1 + (i % 3))]])
        nb == Mat([j \in 1..NParams(M) |-> None])
    IN f # "H" => Optimal(M, P, nb, nb, R) /\ Cost72(M, P, R) = 0
\* The values of a series that starts on another day are those of the same
\* formula with a shifted intercept
Shifted ==
  Done /\ fam = "lin" /\ Dated =>
    \A k \in {7, 14} :
      LET q == <<P[1], P[2] - k * P[1]>> IN
      \A i \in 1..Len(S) :
        Eval(M, 0, q, SampleAt(TRUE, S[i], t0 - k * DAY)) =
        Eval(M, 0, P, SampleAt(TRUE, S[i], t0))
Gen == Done /\ Identified =>
  PrintT("@@SCN " \o ToJson([fam |-> fam, m |-> M, p |-> P, f |-> IF Dated THEN FullF ELSE "",
     s |-> [i \in 1..Len(S) |-> <<S[i], Eval(M, 0, P, SampleAt(Dated, S[i], t0))>>],
     hz |-> hz]))
=============================================================================
