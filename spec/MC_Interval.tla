----------------------------- MODULE MC_Interval ----------------------------
(***************************************************************************)
(* Design of the intervals of one source: the table is read row by row,    *)
(* then the distribution is widened step by step along the future rows.    *)
(* Sequences of draws are enumerated as an independent account of the      *)
(* distributions.                                                          *)
(***************************************************************************)
EXTENDS Interval, Json

CONSTANTS NPast, NFuture, Periods, Steps
ASSUME NPast \in Nat

VARIABLES R, days, step, pos, dist, drawn
vars == <<R, days, step, pos, dist, drawn>>

\* actuals: value 0..2 / missing / without weight; the forecast is 1
Kinds == {[y |-> Some(0), w |-> Some(1)], [y |-> Some(1), w |-> Some(2)],
          [y |-> Some(4), w |-> Some(1)], [y |-> None, w |-> Some(1)],
          [y |-> Some(50), w |-> Some(0)]}
Day0 == 17899 \* 2019-01-03, a Thursday
At(s, k) == (Day0 + (k - 1) * s) * DAY
Table(k, m, s) ==
  [j \in 1..Len(k) |-> [t |-> At(s, j), y |-> k[j].y, w |-> k[j].w,
                        act |-> TRUE, best |-> FALSE, nm |-> "actuals"]]
  \o [j \in 1..(Len(k) + m) |->
       [t |-> At(s, j), y |-> Some(1), w |-> Some(1), act |-> FALSE,
        best |-> TRUE, nm |-> "m"]]

Init ==
  /\ \E n \in 1..NPast, m \in 0..NFuture : \E k \in [1..n -> Kinds] :
       \E s \in Steps : step = s /\ R = Mat(Table(k, m, s))
  /\ days \in Periods
  /\ pos = 0 /\ drawn = 0 /\ dist = [v \in {0} |-> 1]

Res == Residuals(R)
C == Centred(Res)
F == Mat(Forecasts(R))
LastUsed == MaxS({r.t : r \in Range(Usable(R))})
Per == Period(days, TRUE, R)
\* Rows after the last usable actual are counted from 1
Place(j) == Cardinality({h \in 1..j : F[h].t > LastUsed})

Walk ==
  /\ Res # <<>> /\ pos >= 0 /\ pos < Len(F)
  /\ pos' = pos + 1
  /\ LET future == F[pos+1].t > LastUsed
         k == Place(pos + 1)
         widen == future /\ (k - 1) % Per = 0
     IN /\ drawn' = IF widen THEN drawn + 1 ELSE drawn
        /\ dist' = IF widen THEN Convolve(dist, Dist1(C)) ELSE dist
  /\ UNCHANGED <<R, days, step>>
Stop ==
  /\ Res = <<>> \/ pos = Len(F)
  /\ pos >= 0 /\ pos' = -1
  /\ PrintT("@@SCN " \o ToJson([R |-> R, days |-> days]))
  /\ UNCHANGED <<R, days, step, dist, drawn>>
Next == Walk \/ Stop

Draws(k) == [1..k -> 1..Len(C)]
SumOf(w) == LET RECURSIVE g(_) g(j) == IF j = 0 THEN 0 ELSE C[w[j]] + g(j - 1)
            IN g(Len(w))
Running == pos > 0
FutureRow == Running /\ F[pos].t > LastUsed
\* the step-by-step accumulation has the closed form of the specification
AccInv == FutureRow => drawn = Accumulated(Place(pos), Per)
PastInv == Running /\ ~FutureRow => drawn = 0
\* the distribution counts the sequences of draws
DistInv == Running /\ drawn <= 3 =>
  /\ DOMAIN dist = {SumOf(w) : w \in Draws(drawn)}
  /\ \A s \in DOMAIN dist : dist[s] = Cardinality({w \in Draws(drawn) : SumOf(w) = s})
TotalInv == Running => Below(dist, LAMBDA s : TRUE) = Total(Len(C), drawn)
ClosedInv == Running /\ drawn >= 1 => dist = DistN(C, drawn)
\* centred: a mean of zero; bounds are attained
MeanInv == SumSeq(C) = 0
SupportInv == Running /\ drawn >= 1 =>
  /\ MinS(DOMAIN dist) = drawn * MinS(Range(C))
  /\ MaxS(DOMAIN dist) = drawn * MaxS(Range(C))
\* constant residuals have no width
FlatInv == Running /\ Cardinality(Range(Res)) = 1 => DOMAIN dist = {0}
\* the values of unusable actuals play no role
Spoil == [j \in 1..Len(R) |-> IF R[j].act /\ R[j].w = Some(0)
                              THEN [R[j] EXCEPT !.y = Some(-9)] ELSE R[j]]
UnusedInv == Residuals(Spoil) = Res
\* quantiles of the exact distribution itself are accepted; values beyond the
\* support are not
QuantInv == Running /\ drawn >= 1 =>
  /\ \A p \in {5, 50, 80} :
       \E s \in DOMAIN dist :
         IsQuantile(dist, Len(C), drawn, (s * U) \div Len(C), p, 0)
  /\ ~IsQuantile(dist, Len(C), drawn,
                 (MinS(DOMAIN dist) * U) \div Len(C) - U, 20, 40)
  /\ ~IsQuantile(dist, Len(C), drawn,
                 (MaxS(DOMAIN dist) * U) \div Len(C) + U, 80, 40)
=============================================================================
