-------------------------------- MODULE Norm --------------------------------
(***************************************************************************)
(* Normalization of input tables.                                          *)
(*                                                                         *)
(* A description d of samples:                                             *)
(*   d.cols   roles that have a column: "date", "x", "weight", "source"    *)
(*            (the values always have one)                                 *)
(*   d.index  "date", "int" or "other" (text labels)                       *)
(*   d.rows   [s, i, t, x, y, w]: source (the rank of its name), integer   *)
(*            index label, instant, x, optional value, optional weight;    *)
(*            parts that the description lacks are arbitrary               *)
(* A sample is [s, t, x, y, w]: source (0: none), optional instant, x,     *)
(* optional value, weight (None: there are no weights; Some(None): missing)*)
(***************************************************************************)
EXTENDS Freq

HasCol(d, c) == c \in Range(d.cols)
Dated(d) == HasCol(d, "date") \/ d.index = "date"
Src(d, r) == IF HasCol(d, "source") THEN r.s ELSE 0
Peers(d, i) == {j \in 1..Len(d.rows) : Src(d, d.rows[j]) = Src(d, d.rows[i])}

\* Midnights do not matter: days elapsed since the first listed instant,
\* moved back to the Monday of its week
MondayBase(t) == t - Weekday(DayOf(t)) * DAY

XOf(d, i) ==
  LET r == d.rows[i] IN
  IF HasCol(d, "x") THEN r.x
  ELSE IF Dated(d) THEN (r.t - MondayBase(d.rows[MinS(Peers(d, i))].t)) \div DAY
  ELSE IF d.index = "int" /\ ~HasCol(d, "source") THEN r.i
  ELSE Cardinality({j \in Peers(d, i) : j < i})

SampleOf(d, i) ==
  LET r == d.rows[i] IN
  [s |-> Src(d, r), t |-> IF Dated(d) THEN Some(r.t) ELSE None,
   x |-> XOf(d, i), y |-> r.y,
   w |-> IF HasCol(d, "weight") THEN Some(r.w) ELSE None]
Samples(d) == Mat([i \in 1..Len(d.rows) |-> SampleOf(d, i)])

Ordered(S) == \A i \in 1..(Len(S) - 1) :
  S[i].s < S[i+1].s \/ (S[i].s = S[i+1].s /\ S[i].x <= S[i+1].x)
\* out is a normalization of d
IsNorm(d, out) == SameBag(out, Samples(d)) /\ Ordered(out)
OutCols(d) == {"y", "x"} \cup Range(d.cols)
              \cup (IF Dated(d) THEN {"date"} ELSE {})

(***************************************************************************)
(* Same samples.  Weights of 1 are no weights; the x that are derived from *)
(* dates may be shifted by whole weeks.                                    *)
(***************************************************************************)
Plain(a) == [a EXCEPT !.w = IF a.w = None THEN Some(Some(1)) ELSE a.w]
PlainAll(S) == Mat([i \in 1..Len(S) |-> Plain(S[i])])
SrcOfS(S) == {a.s : a \in Range(S)}
MinX(S, s) == MinS({a.x : a \in {b \in Range(S) : b.s = s}})
Unshift(S) == Mat([i \in 1..Len(S) |-> [S[i] EXCEPT !.x = S[i].x - MinX(S, S[i].s)]])
SameSamples(a, b) == SameBag(PlainAll(Samples(a)), PlainAll(Samples(b)))
SameUpToShift(a, b) ==
  LET A == PlainAll(Samples(a)) B == PlainAll(Samples(b)) IN
  /\ Dated(a) /\ Dated(b)
  /\ SrcOfS(A) = SrcOfS(B)
  /\ SameBag(Unshift(A), Unshift(B))
  /\ \A s \in SrcOfS(A) : (MinX(A, s) - MinX(B, s)) % 7 = 0
=============================================================================
