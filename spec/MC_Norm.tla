------------------------------- MODULE MC_Norm -------------------------------
(***************************************************************************)
(* Design of normalization: the rows are taken one by one and put into the *)
(* bucket of their source, which remembers the Monday of its first row;    *)
(* then the buckets are merged.                                            *)
(***************************************************************************)
EXTENDS Norm, Json

CONSTANT NRows
\* Instants around a week's end, two sources
Times == {4 * DAY, 7 * DAY, 18 * DAY + 600}
VARIABLES d, pos, base, bucket, out
vars == <<d, pos, base, bucket, out>>

ColSets == {<<>>, <<"date">>, <<"x">>, <<"date", "x">>, <<"source">>,
            <<"date", "source">>, <<"x", "source">>, <<"weight">>,
            <<"date", "weight", "source">>}
Init ==
  /\ \E n \in 0..NRows, c \in ColSets, ix \in {"date", "int", "other"} :
     \E v \in [1..n -> [s : IF "source" \in Range(c) THEN {1, 2} ELSE {1},
                        t : IF "date" \in Range(c) \/ ix = "date" THEN Times ELSE {0},
                        i : IF ix = "int" THEN {-1, 3} ELSE {0}]] :
       d = [cols |-> c, index |-> ix,
            rows |-> [k \in 1..n |-> [s |-> v[k].s, i |-> v[k].i, t |-> v[k].t,
                        x |-> (v[k].t \div DAY) % 5, y |-> IF k = 2 THEN None ELSE Some(k),
                        w |-> IF k = 1 THEN None ELSE Some(k)]]]
  /\ pos = 0 /\ base = [s \in 0..2 |-> None] /\ bucket = [s \in 0..2 |-> <<>>]
  /\ out = None

Take ==
  /\ pos < Len(d.rows)
  /\ LET r == d.rows[pos + 1]
         s == Src(d, r)
         b == IF base[s] = None /\ Dated(d) THEN Some(MondayBase(r.t)) ELSE base[s]
         x == IF HasCol(d, "x") THEN r.x
              ELSE IF Dated(d) THEN (r.t - Get(b)) \div DAY
              ELSE IF d.index = "int" /\ ~HasCol(d, "source") THEN r.i
              ELSE Len(bucket[s])
         a == [s |-> s, t |-> IF Dated(d) THEN Some(r.t) ELSE None, x |-> x,
               y |-> r.y, w |-> IF HasCol(d, "weight") THEN Some(r.w) ELSE None]
     IN /\ base' = [base EXCEPT ![s] = b]
        /\ bucket' = [bucket EXCEPT ![s] = InsertBy(LAMBDA z : z.x, @, a)]
  /\ pos' = pos + 1
  /\ UNCHANGED <<d, out>>
Merge ==
  /\ pos = Len(d.rows) /\ out = None
  /\ out' = Some(bucket[0] \o bucket[1] \o bucket[2])
  /\ PrintT("@@SCN " \o ToJson(d))
  /\ UNCHANGED <<d, pos, base, bucket>>
Next == Take \/ Merge

NormInv == out # None => IsNorm(d, Get(out))
\* Every derived x of a source is at least 0 if the first listed instant is
\* the first one
FromMondayInv ==
  out # None /\ Dated(d) /\ ~HasCol(d, "x") =>
    \A i \in 1..Len(d.rows) :
      LET f == d.rows[MinS(Peers(d, i))].t IN
        d.rows[i].t >= f => XOf(d, i) \in (XOf(d, MinS(Peers(d, i))) .. 1000)
\* The first listed sample of a source has its weekday as x
WeekdayInv ==
  Dated(d) /\ ~HasCol(d, "x") =>
    \A i \in 1..Len(d.rows) : i = MinS(Peers(d, i)) =>
      XOf(d, i) = Weekday(DayOf(d.rows[i].t))
\* Order of the rows: no effect if x is given; else whole weeks, if all the
\* instants have the same time of day
RevD == [d EXCEPT !.rows = Rev(d.rows)]
OrderInv == out # None =>
  /\ (HasCol(d, "x") => SameSamples(d, RevD))
  /\ (Dated(d) /\ ~HasCol(d, "x") /\
      (\A i, j \in 1..Len(d.rows) : (d.rows[i].t - d.rows[j].t) % DAY = 0) =>
        SameUpToShift(d, RevD))
\* Index labels do not matter if x or dates are given
LabelInv == out # None /\ HasCol(d, "date") /\ d.index = "int" =>
  SameSamples(d, [d EXCEPT !.index = "other"])
=============================================================================
