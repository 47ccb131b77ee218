------------------------------- MODULE MC_Plot -------------------------------
(***************************************************************************)
(* A table grows by one row at a time; then its panels are drawn one by    *)
(* one with a cursor that moves through the grid.                          *)
(***************************************************************************)
EXTENDS Plot, Json
CONSTANTS MaxRows, Names, MaxT, MaxSeries
VARIABLES T, drawn, cur, pc

Init == /\ \E q \in {<<>>, <<5>>} : T = [src |-> TRUE, q |-> q, rows |-> <<>>]
        /\ drawn = <<>> /\ cur = <<1, 1>> /\ pc = "table"
Nb(T0) == Mat([j \in 1..Len(T0.q) |-> <<Some(j), None>>])
\* the first row of a source is an actual
AddRow == /\ pc = "table" /\ Len(T.rows) < MaxRows
          /\ \E s \in Names, t \in 1..MaxT, a \in BOOLEAN :
               /\ (~a => s \in Range(Sources(T)))
               /\ T' = [T EXCEPT !.rows = Append(@, [s |-> s, t |-> t,
                    y |-> Some(Len(T.rows)), a |-> a, b |-> Nb(T)])]
          /\ UNCHANGED <<drawn, cur, pc>>
\* tables of many sources, one row each
Wide == /\ pc = "table" /\ T.rows = <<>>
        /\ \E n \in (Cardinality(Names) + 1)..MaxSeries :
             T' = [T EXCEPT !.rows = [i \in 1..n |-> [s |-> ToString(n - i), t |-> i,
                    y |-> Some(i), a |-> TRUE, b |-> Nb(T)]]]
        /\ UNCHANGED <<drawn, cur, pc>>
Begin == pc = "table" /\ T.rows # <<>> /\ pc' = "draw" /\ UNCHANGED <<T, drawn, cur>>
N == IF Multi(T) THEN Len(Sources(T)) ELSE 1
DrawPanel ==
  /\ pc = "draw" /\ Len(drawn) < N
  /\ LET s == Sources(T)[Len(drawn) + 1] IN
     drawn' = Append(drawn, Panel(T, IF Multi(T) THEN Some(s) ELSE None,
                                  IF Multi(T) THEN Some(s) ELSE None, cur, T.q))
  /\ cur' = IF cur[2] = GridCols(N) THEN <<cur[1] + 1, 1>> ELSE <<cur[1], cur[2] + 1>>
  /\ UNCHANGED <<T, pc>>
End == pc = "draw" /\ Len(drawn) = N /\ pc' = "done" /\ UNCHANGED <<T, drawn, cur>>
Next == AddRow \/ Wide \/ Begin \/ DrawPanel \/ End

Matches == pc = "done" => drawn = Panels(T, T.q)
InGrid == \A k \in 1..Len(drawn) :
  drawn[k].pos[1] \in 1..GridRows(N) /\ drawn[k].pos[2] \in 1..GridCols(N)
\* no row of the grid is empty; panels do not overlap
Compact == pc = "done" =>
  /\ \A r \in 1..GridRows(N) : \E k \in 1..Len(drawn) : drawn[k].pos[1] = r
  /\ \A j, k \in 1..Len(drawn) : drawn[j].pos = drawn[k].pos => j = k
\* every row of the table is drawn once
Complete == pc = "done" =>
  /\ SumSeq([k \in 1..Len(drawn) |-> Len(drawn[k].act) + Len(drawn[k].fc)]) = Len(T.rows)
  /\ \A i \in 1..Len(T.rows) : \E k \in 1..Len(drawn) :
       LET r == T.rows[i] IN
       /\ <<r.t, r.y>> \in Range(IF r.a THEN drawn[k].act ELSE drawn[k].fc)
       /\ (Multi(T) => drawn[k].title = Some(r.s))
Bounds2 == pc = "done" => \A k \in 1..Len(drawn) :
  /\ Len(drawn[k].bands) = Len(T.q)
  /\ \A j \in 1..Len(T.q), w \in 1..2 : Len(drawn[k].bands[j][w]) = Len(drawn[k].fc)
Gen == pc = "done" /\ (Len(T.rows) = MaxRows \/ N > 3) =>
  PrintT("@@SCN " \o ToJson([src |-> TRUE, q |-> T.q, rows |-> T.rows]))
=============================================================================
