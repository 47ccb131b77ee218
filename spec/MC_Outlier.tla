----------------------------- MODULE MC_Outlier -----------------------------
(***************************************************************************)
(* Design of outlier detection: the changes are scanned once; a group is   *)
(* open until no change follows within the window.                         *)
(***************************************************************************)
EXTENDS Outlier, Json

CONSTANTS NMax, NLong, Window
Vals == {None, Some(0), Some(1), Some(9), Some(-8)}

VARIABLES y, pos, open, step, spike
vars == <<y, pos, open, step, spike>>

Init ==
  /\ \/ /\ \E n \in 0..NMax : y \in [1..n -> Vals]
        \* missing values: at most one
        /\ Cardinality({i \in DOMAIN y : y[i] = None}) <= 1
     \* a constant series with one deviation, temporary or lasting
     \/ \E n \in 7..NLong, c \in {9, -8}, a \in 2..NLong, b \in 2..NLong :
          a <= b /\ b <= n /\
          y = [i \in 1..n |-> IF i \in a..b THEN Some(c) ELSE Some(1)]
  /\ pos = 0 /\ open = {} /\ step = {} /\ spike = {}

D == Changes(y)
V == Values(D)
Close(G) ==
  /\ step' = step \cup (IF G # {} /\ IsStep(D, G, V) THEN MinS(G)..MaxS(G) ELSE {})
  /\ spike' = spike \cup (IF G # {} /\ IsSpike(D, G, V) THEN MinS(G)..(MaxS(G)-1) ELSE {})
Scan ==
  /\ pos <= Len(y)
  /\ pos' = pos + 1
  /\ IF pos >= 1 /\ pos <= Len(y) /\ pos \in Beyond(y)
     THEN IF open # {} /\ pos - MaxS(open) > Window
          THEN open' = {pos} /\ Close(open)
          ELSE open' = open \cup {pos} /\ UNCHANGED <<step, spike>>
     ELSE UNCHANGED <<open, step, spike>>
  /\ UNCHANGED y
Finish ==
  /\ pos = Len(y) + 1
  /\ pos' = pos + 1
  /\ Close(open) /\ open' = {}
  /\ PrintT("@@SCN " \o ToJson([y |-> y, w |-> Window]))
  /\ UNCHANGED y
Next == Scan \/ Finish
Done == pos = Len(y) + 2

MaskInv == Done => step = StepMask(y, Window) /\ spike = SpikeMask(y, Window)
\* Masks consist of samples; the first sample is never in one
RangeInv == Done => step \cup spike \subseteq 2..Len(y)
\* The masks do not depend on the level or the sign of the series
Plus(c) == [i \in DOMAIN y |-> IF y[i] = None THEN None ELSE Some(Get(y[i]) + c)]
Minus == [i \in DOMAIN y |-> IF y[i] = None THEN None ELSE Some(-Get(y[i]))]
Twice == [i \in DOMAIN y |-> IF y[i] = None THEN None ELSE Some(2 * Get(y[i]))]
LevelInv == Done => /\ StepMask(Plus(5), Window) = step
                    /\ SpikeMask(Plus(5), Window) = spike
SignInv == Done => /\ StepMask(Minus, Window) = step
                   /\ SpikeMask(Minus, Window) = spike
ScaleInv == Done => /\ StepMask(Twice, Window) = step
                    /\ SpikeMask(Twice, Window) = spike
\* Constant and straight series have none
StraightInv == Done /\ Len(y) >= 1 /\ (\A i \in DOMAIN y : y[i] # None) /\
  Cardinality({D[i] : i \in 2..Len(y)}) <= 1 => step = {} /\ spike = {}
\* A single deviating sample of a constant series is exactly the spike, if
\* there are enough changes for two of them to be exceptional
LoneSpikeInv ==
  Done /\ Len(y) >= 9 =>
    \A i \in 2..(Len(y) - 1) :
      (\A j \in DOMAIN y : y[j] # None /\ (y[j] = y[1]) = (j # i)) =>
        step = {} /\ spike = {i}
\* ... also of several samples within the window
LongSpikeInv ==
  Done /\ Len(y) >= 9 /\ y[1] = Some(1) /\ y[Len(y)] = Some(1) =>
    \A a \in 2..(Len(y) - 1) : \A b \in a..Min2(Len(y) - 1, a + Window - 1) :
      (\A j \in DOMAIN y : y[j] = IF j \in a..b THEN Some(9) ELSE Some(1)) =>
        step = {} /\ spike = a..b
LoneStepInv ==
  Done /\ Len(y) >= 7 =>
    \A i \in 2..Len(y) :
      (\A j \in DOMAIN y : y[j] # None /\ (y[j] = y[1]) = (j < i)) /\
      Cardinality(Range(y)) = 2 => step = {i} /\ spike = {}
=============================================================================
