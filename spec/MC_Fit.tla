------------------------------- MODULE MC_Fit -------------------------------
(***************************************************************************)
(* Series grow by one row at a time; a model and a parameter vector are    *)
(* fixed at the start.  Whenever the parameters satisfy Optimal they are   *)
(* compared with all others in a box around them.                          *)
(***************************************************************************)
EXTENDS Fit, Json, SequencesExt
CONSTANTS MaxN, Models_, Ys, Ws, MaxX, Pmax
VARIABLES m, R, pc

Day0 == 18000     \* a Sunday
Model(k) ==
  CASE k = "constant" -> Leaf("constant", "constant", <<>>)
    [] k = "linear" -> Leaf("linear", "linear", <<>>)
    [] k = "step" -> Leaf("step_date", "s", <<(Day0 + 1) * 1440>>)
    [] k = "linear+step" -> Compose("add", Leaf("linear", "linear", <<>>),
                              Leaf("step_date", "s", <<(Day0 + 1) * 1440>>))
    [] k = "dummy" -> Leaf("dummy", "d", [kind |-> "x", l |-> <<0, 2>>])
    [] k = "wday+constant" -> Compose("add", Leaf("constant", "constant", <<>>),
         Leaf("dummy", "d", [kind |-> "weekday<5", l |-> <<>>]))
    [] k = "fix" -> Fix(Leaf("linear", "linear", <<>>), <<None, <<1>>>>, "f")

Usables == LET P == SetToSeq(Ys \X Ws) IN
  [i \in 1..Len(P) |-> [y |-> Some(P[i][1]), w |-> Some(P[i][2])]]
\* rows as numbers, in the order of x, to enumerate each series once
Kinds == Usables \o <<[y |-> None, w |-> Some(1)], [y |-> Some(2), w |-> Some(0)]>>
RowOf(k) == LET n == Len(Kinds) x == (k - 1) \div n q == Kinds[((k - 1) % n) + 1] IN
  [x |-> x, t |-> (Day0 + x) * 1440, d |-> Day0 + x, y |-> q.y, w |-> q.w]
Init == /\ m \in {Model(k) : k \in Models_}
        /\ R = <<>> /\ pc = 1
Grow == /\ pc > 0 /\ Len(R) < MaxN
        /\ \E k \in pc..((MaxX + 1) * Len(Kinds)) :
             R' = Append(R, RowOf(k)) /\ pc' = k
        /\ UNCHANGED m
Stop == /\ pc > 0 /\ Len(R) >= NParams(m) + 2 /\ pc' = 0
        /\ UNCHANGED <<m, R>>
Next == Grow \/ Stop

NoBound == [j \in 1..NParams(m) |-> None]
Grid == [1..NParams(m) -> -Pmax..Pmax]
Bs0 == [j \in 1..NParams(m) |-> Some(0)]
U0 == Mat(UsableRows(R))
Few == \A i \in 1..Len(U0) : Sharing(U0, U0[i].x) \in {1, 2, 3}
Check == pc = 0 /\ Few
\* parameters that satisfy the condition minimise the cost within the bounds
Minimises ==
  Check => \A bd \in {<<NoBound, NoBound>>, <<Bs0, NoBound>>, <<NoBound, Bs0>>} :
    LET lo == bd[1] hi == bd[2] IN
    LET B == {q \in Grid : Within(q, lo, hi)}
        C == Mat2([q \in B |-> Cost72(m, q, U0)])
        O == {q \in B : Optimal(m, q, lo, hi, U0)}
    IN \A p \in O, q \in B : C[p] <= C[q]
\* ... and if a vector is optimal among all reals it satisfies the condition:
\* an optimum in the grid costs less than all others or ties with an optimum
Ties ==
  Check => LET C == Mat2([q \in Grid |-> Cost72(m, q, U0)])
               O == {q \in Grid : Optimal(m, q, NoBound, NoBound, U0)}
           IN \A p \in O, q \in Grid : C[q] = C[p] => q \in O
\* Ignored rows, the order of rows and the unit of the weights do not matter;
\* the unit of the values is that of the parameters
Scaled(q, k) == [j \in 1..Len(q) |-> k * q[j]]
Linear0 == \A i \in 1..Len(U0) : Eval(m, 0, Zero(NParams(m)), U0[i]) = 0
Invariances ==
  Check => \A q \in Grid :
    LET V == Mat(Rev(U0))
        W2 == Mat([i \in 1..Len(U0) |-> [U0[i] EXCEPT !.w = Some(2 * Get(U0[i].w))]])
        Y3 == Mat([i \in 1..Len(U0) |-> [U0[i] EXCEPT !.y = Some(3 * Get(U0[i].y))]])
        o == Optimal(m, q, NoBound, NoBound, U0)
    IN /\ Optimal(m, q, NoBound, NoBound, V) = o
       /\ Optimal(m, q, NoBound, NoBound, W2) = o
       /\ (Linear0 => Optimal(m, Scaled(q, 3), NoBound, NoBound, Y3) = o)
       /\ Cost72(m, q, W2) = 4 * Cost72(m, q, U0)
       /\ (Linear0 => Cost72(m, Scaled(q, 3), Y3) = 9 * Cost72(m, q, U0))
\* a row that shares its x with its own copy counts half
Halves ==
  Check /\ (\A i \in 1..Len(U0) : Sharing(U0, U0[i].x) = 1) =>
    \A q \in Grid : 2 * Cost72(m, q, Mat(U0 \o U0)) = Cost72(m, q, U0)

\* scenarios: series with an optimum in the grid
Scn == pc = 0 /\ Few /\ Len(R) = MaxN
Gen == Scn =>
  LET O == {q \in Grid : Optimal(m, q, NoBound, NoBound, U0)} IN
  O # {} /\ Cost72(m, CHOOSE q \in O : TRUE, U0) > 0 => PrintT("@@SCN " \o ToJson(
    [m |-> m, R |-> R, p |-> CHOOSE q \in O : TRUE, n |-> Cardinality(O)]))
=============================================================================
