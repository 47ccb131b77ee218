------------------------------ MODULE MC_Naive ------------------------------
(***************************************************************************)
(* Design of the naive forecasts: samples arrive one by one and the        *)
(* forecaster keeps the last usable value (per weekday), which is all it    *)
(* needs.  The invariants relate this state to the definitions of Naive.   *)
(***************************************************************************)
EXTENDS Naive, Json

CONSTANTS Vals, N, Step  \* values, samples, minutes between grid points

VARIABLES rows, lastv, lastw, outN, outS, done
vars == <<rows, lastv, lastw, outN, outS, done>>

T0 == 26300160 \* 2020-01-03
T(i) == T0 + (i - 1) * Step
Wd(t) == Weekday(DayOf(t))

Init == /\ rows = <<>> /\ lastv = None /\ lastw = [d \in 0..6 |-> None]
        /\ outN = <<>> /\ outS = <<>> /\ done = FALSE

Arrive(y, w) ==
  LET t == T(Len(rows) + 1)
      r == [t |-> t, x |-> (t - T0) \div DAY, y |-> y, w |-> w]
  IN /\ outN' = Append(outN, lastv)
     /\ outS' = Append(outS, lastw[Wd(t)])
     /\ rows' = Append(rows, r)
     /\ lastv' = IF Usable(r) THEN y ELSE lastv
     /\ lastw' = IF Usable(r) THEN [lastw EXCEPT ![Wd(t)] = y] ELSE lastw
Observe == /\ ~done /\ Len(rows) < N
           /\ \E v \in Vals : Arrive(Some(v), 1)
           /\ UNCHANGED done
Ignored == /\ ~done /\ Len(rows) < N
           /\ \E v \in Vals : Arrive(Some(v), 0)
           /\ UNCHANGED done
Missing == /\ ~done /\ Len(rows) < N
           /\ \E w \in {0, 1} : Arrive(None, w)
           /\ UNCHANGED done
Finish == /\ ~done /\ Len(rows) = N /\ Cardinality(UsableOf(rows)) >= 2
          /\ done' = TRUE
          /\ PrintT("@@SCN " \o ToJson([rows |-> rows]))
          /\ UNCHANGED <<rows, lastv, lastw, outN, outS>>
Next == Observe \/ Ignored \/ Missing \/ Finish

\* What was forecast when a sample arrived is what the definition gives on
\* all the samples: the forecast does not look ahead, except for the backfill
NaiveInv == \A i \in 1..Len(rows) :
  NaiveAt(rows, T(i)) = IF outN[i] # None THEN outN[i]
                        ELSE IF UsableOf(rows) = {} THEN None
                        ELSE Earliest(UsableOf(rows)).y
SnaiveInv == \A i \in 1..Len(rows) : SnaiveAt(rows, T(i)) = outS[i]
\* After the end the last value is repeated
FutureInv == \A k \in 1..3 :
  LET t == T(Len(rows) + k) IN
    /\ lastv # None => NaiveAt(rows, t) = lastv
    /\ SnaiveAt(rows, t) = lastw[Wd(t)]
\* Ignored samples have no influence
IgnoreInv ==
  LET R == Filter(rows, Usable) IN
    \A i \in 1..(N + 2) : /\ NaiveAt(rows, T(i)) = NaiveAt(R, T(i))
                          /\ SnaiveAt(rows, T(i)) = SnaiveAt(R, T(i))
=============================================================================
