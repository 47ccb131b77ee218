------------------------------ MODULE MC_Start ------------------------------
(***************************************************************************)
(* Series grow sample by sample, models by composition and by fixing       *)
(* parameters; whenever a model accepts a series of sufficient length its  *)
(* initial parameters are within its bounds.                               *)
(***************************************************************************)
EXTENDS Start, Json
\* values are 2 less than those of YVals
CONSTANTS MaxN, YVals, Gaps, X0s, Kinds, MaxLeaves
VARIABLES U, x0, m, r, pc

Day0 == 17990
\* x to days: month by month
DayAt(x) == Day0 + 31 * (x - x0)
Model(k) ==
  CASE k = "nondec" -> Leaf("linear", "linear_nondec", <<>>)
    [] k = "sigmoid_step" -> Leaf("sigmoid", "sigmoid_step", <<>>)
    [] OTHER -> Leaf(k, k, <<>>)

Init == /\ U = <<>> /\ x0 \in X0s /\ m \in {Model(k) : k \in Kinds}
        /\ r \in {0, 1} /\ pc = "grow"
Grow == /\ pc = "grow" /\ Len(U) < MaxN
        /\ \E g \in (IF U = <<>> THEN {0} ELSE Gaps), y \in {v - 2 : v \in YVals} :
             LET x == IF U = <<>> THEN x0 ELSE Last(U).x + g IN
             U' = Append(U, [x |-> x, t |-> DayAt(x) * 1440, d |-> DayAt(x), y |-> y])
        /\ UNCHANGED <<x0, m, r, pc>>
Build == /\ pc = "grow" /\ U = <<>> /\ Len(Leaves(m)) < MaxLeaves
         /\ m.k = "leaf"
         /\ \E k \in Kinds, op \in {"add", "mult"} : m' = Compose(op, m, Model(k))
         /\ UNCHANGED <<U, x0, r, pc>>
FixOne == /\ pc = "grow" /\ U = <<>> /\ m.k # "fix" /\ NParams(m) <= 6
          /\ \E j \in 1..NParams(m) :
               m' = Fix(m, [i \in 1..NParams(m) |->
                              IF i = j THEN Some(0) ELSE None], m.nm \o "-f")
          /\ UNCHANGED <<U, x0, r, pc>>
Ready == /\ Cardinality(Xs(U)) >= NParams(m) + 2 /\ Accepts(m, TRUE, U)
\* season_month has 11 parameters: the number of samples is not required here
ReadyM == /\ Cardinality(Xs(U)) >= Min2(NParams(m) + 2, 4) /\ Accepts(m, TRUE, U)
Stop == /\ pc = "grow" /\ ReadyM /\ pc' = "done" /\ UNCHANGED <<U, x0, m, r>>
Next == Grow \/ Build \/ FixOne \/ Stop

On == pc = "done"
Counts == On => /\ Len(TermBounds(m, U)) = NParams(m)
                /\ Len(TermBounds(m, <<>>)) = NParams(m)
                /\ Len(TermGuess(m, r, U)) = NParams(m)
                /\ Len(Signs(m)) = NParams(m)
Inside == On => InBounds2(TermGuess(m, r, U), TermBounds(m, U))
\* Bounds leave room: lower below upper; equal only on constant series
Room == On => LET b == TermBounds(m, U) IN
  \A j \in 1..Len(b) : IsSome(b[j][1]) /\ IsSome(b[j][2]) =>
    /\ b[j][1][2] <= b[j][2][2]
    /\ b[j][1][2] = b[j][2][2] => b[j][1] = <<"y", 0>> /\ Cardinality(Ys(U)) = 1
\* Signs follow from the bounds; without a series bounds are wider
Signed == On =>
  /\ \A j \in 1..NParams(m) :
       /\ Signs(m)[j] = 1 => TermBounds(m, U)[j][1] = <<"abs", 0>>
       /\ Signs(m)[j] = -1 => TermBounds(m, U)[j][2] = <<"abs", 0>>
  /\ LET b == TermBounds(m, <<>>) c == TermBounds(m, U) IN
     \A j \in 1..NParams(m), k \in 1..2 : IsSome(b[j][k]) => c[j][k] = b[j][k]
\* Two samples at the ends of the ramp's positions at least
RampInside == On => \A j \in 1..Len(U) :
  m.n = "ramp" => LET p == TermGuess(m, r, U)[1][1] IN
                  MinS(Xs(U)) < p /\ p < MaxS(Xs(U))
Scn == [m |-> m, r |-> r, U |-> U]
Gen == (On /\ Ready) => PrintT("@@SCN " \o ToJson(Scn))
=============================================================================
