----------------------------- MODULE MC_Report -----------------------------
(***************************************************************************)
(* Design of the report of one source: for every candidate, residuals are  *)
(* accumulated sample by sample; the optimizer row, the metadata row and   *)
(* the rows on the grid are written from the same fit; in the end the      *)
(* fits that are not the best are dropped from the metadata and the rows   *)
(* unless all are asked for.  The invariants recompute the cost from the   *)
(* rows.                                                                   *)
(***************************************************************************)
EXTENDS Report, Json

CONSTANTS Slots, Origin    \* Origin: "used" or "all" (the wrong origin of x)

Day0 == 18000 * DAY
Kinds == {"none", "three", "two", "null", "off", "twice"}
RowsOf(i, k) ==
  LET r == [s |-> 1, t |-> Day0 + (i - 1) * DAY, x |-> i, y |-> Some(3), w |-> Some(1)] IN
  CASE k = "none" -> <<>> [] k = "three" -> <<r>>
    [] k = "two" -> <<[r EXCEPT !.y = Some(i), !.w = Some(2)]>>
    [] k = "null" -> <<[r EXCEPT !.y = None]>>
    [] k = "off" -> <<[r EXCEPT !.w = Some(0)]>>
    [] k = "twice" -> <<r, [r EXCEPT !.y = Some(5)]>>
PB(nm, b) == Leaf("probe", nm, [np |-> 0, a |-> 0, b |-> b, w |-> 0, init |-> 1,
                     bounds |-> <<-9, 9>>, checks |-> <<>>, cache |-> <<>>, fail |-> 0])
Cands == {PB("p0", 0), PB("p1", 1), PB("p2", 2)}
K == 2

VARIABLES rows, all, cur, i, acc, meta, opt, data, phase
vars == <<rows, all, cur, i, acc, meta, opt, data, phase>>
U == UsableRows(rows)
Plan(ks) == LET f[j \in 0..Len(ks)] == IF j = 0 THEN <<>> ELSE f[j-1] \o RowsOf(j, ks[j])
            IN f[Len(ks)]
Init == /\ \E a \in [1..Slots -> Kinds] : rows = Plan(a)
        /\ UsableRows(rows) # <<>>
        /\ all \in BOOLEAN
        /\ cur = None /\ i = 0 /\ acc = 0 /\ meta = {} /\ opt = {} /\ data = {}
        /\ phase = "fit"
Pick(m) == /\ phase = "fit" /\ cur = None /\ m \in Cands
           /\ m.nm \notin {o.nm : o \in opt}
           /\ cur' = Some(m) /\ i' = 1 /\ acc' = 0
           /\ UNCHANGED <<rows, all, meta, opt, data, phase>>
Residual ==
  /\ cur # None /\ i <= Len(U) /\ Len(U) >= 2
  /\ LET r == U[i]
         d == Factor(U, i, K) * (Get(r.y) - Get(cur).v.b * r.x)
     IN acc' = acc + d * d
  /\ i' = i + 1
  /\ UNCHANGED <<rows, all, cur, meta, opt, data, phase>>
Write ==
  /\ cur # None /\ (i > Len(U) \/ Len(U) < 2)
  /\ LET m == Get(cur)
         fit == Len(U) >= 2
         x0 == IF Origin = "used" THEN X0(rows) ELSE MinS({r.x : r \in Range(rows)})
         g == T0(rows)
     IN /\ opt' = opt \cup {[nm |-> m.nm, ok |-> fit, cost |-> IF fit THEN acc ELSE -1]}
        /\ meta' = meta \cup {[nm |-> m.nm, ok |-> fit, cost |-> IF fit THEN acc ELSE -1]}
        /\ data' = IF ~fit THEN data ELSE data \cup
             {[nm |-> m.nm, t |-> g + j * DAY, v |-> m.v.b * (x0 + j)] :
                j \in 0..((T1(rows) - g) \div DAY + 1)}
  /\ cur' = None
  /\ UNCHANGED <<rows, all, i, acc, phase>>
Best == LET F == {d \in meta : d.ok}
            least == {d \in F : \A z \in F : d.cost <= z.cost}
        IN IF least = {} THEN {} ELSE {CHOOSE d \in least : TRUE}
Finish ==
  /\ phase = "fit" /\ cur = None /\ Cardinality(opt) = Cardinality(Cands)
  /\ phase' = "done"
  /\ meta' = IF all THEN meta ELSE Best
  /\ data' = IF all THEN data ELSE {d \in data : \E b \in Best : b.nm = d.nm}
  /\ PrintT("@@SCN " \o ToJson([rows |-> rows, all |-> all]))
  /\ UNCHANGED <<rows, all, cur, i, acc, opt>>
PickA == \E m \in Cands : Pick(m)
Next == PickA \/ Residual \/ Write \/ Finish

RowsOfFit(nm) == LET S == {d \in data : d.nm = nm} IN
                 [t \in {d.t : d \in S} |-> (CHOOSE d \in S : d.t = t).v]
\* The reported cost is that of the rows
CostInv == \A d \in meta : d.ok => d.cost = Cost2(U, K, 1, RowsOfFit(d.nm))
\* One optimizer row per candidate, agreeing with the metadata
OptInv == /\ \A d \in meta : d \in opt
          /\ phase = "done" => {o.nm : o \in opt} = {m.nm : m \in Cands}
          /\ \A o, p \in opt : o.nm = p.nm => o = p
\* Only reported fits have rows
RowInv == phase = "done" => {d.nm : d \in data} = {d.nm : d \in {z \in meta : z.ok}}
\* Ignored samples shape neither range nor cost
RangeInv ==
  LET r == UsedRange(U, TRUE) IN
    \A z \in Range(U) : DayOf(z.t) \in Get(r)[1]..Get(r)[2]
DividesInv == Divides(U, K)
=============================================================================
