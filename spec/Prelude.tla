------------------------------ MODULE Prelude ------------------------------
(***************************************************************************)
(* Vocabulary shared by all modules of the specification.                  *)
(*                                                                         *)
(* Encoding of the data of the implementation:                             *)
(*   - a value that may be missing (None, NaN, NaT) is a sequence of       *)
(*     length 0 or 1:  None == <<>>,  Some(v) == <<v>>;                    *)
(*   - instants are minutes since 1970-01-01, days are days since then;    *)
(*   - a float that is an integer of moderate size is that integer; other  *)
(*     floats appear as the markers below, or rounded to a stated number   *)
(*     of decimals;                                                        *)
(*   - tables are sequences of rows.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<>>
Some(v) == <<v>>
IsSome(o) == o # <<>>
Get(o) == o[1]

\* Markers for floats that are not integers of moderate size
NAN    == 2000000001
PINF   == 2000000002
NINF   == 2000000003
INEXACT == 2000000004
IsNum(v) == v \in -1999999999..1999999999

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
MinS(S) == CHOOSE v \in S : \A w \in S : v <= w
MaxS(S) == CHOOSE v \in S : \A w \in S : v >= w

Range(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]
\* s itself; evaluates a sequence given as a function once and for all (TLC)
Mat(s) == s \o <<>>
\* likewise for any function
Mat2(f) == f @@ <<>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* Folds over sequences (linear, unlike recursion over Tail)
FoldL(Op(_, _), b, s) ==
  LET f[i \in 0..Len(s)] == IF i = 0 THEN b ELSE Op(f[i-1], s[i]) IN f[Len(s)]
SumSeq(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i-1] + s[i]
             IN f[Len(s)]
MapS(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Filter(s, P(_)) == SelectSeq(s, P)

\* s without elements that occurred before (keeps the first occurrence)
Distinct(s) ==
  FoldL(LAMBDA acc, v : IF v \in Range(acc) THEN acc ELSE Append(acc, v),
        <<>>, s)

\* Stable sort by an integer key (insertion into a sorted sequence)
InsertBy(Key(_), acc, v) ==
  LET k == Key(v)
      \* first position whose key is greater
      p == IF acc = <<>> \/ Key(Last(acc)) <= k THEN Len(acc) + 1
           ELSE MinS({i \in 1..Len(acc) : Key(acc[i]) > k})
  IN SubSeq(acc, 1, p - 1) \o <<v>> \o SubSeq(acc, p, Len(acc))
SortBy(Key(_), s) ==
  LET f[i \in 0..Len(s)] ==
        IF i = 0 THEN <<>> ELSE InsertBy(Key, f[i-1], s[i])
  IN f[Len(s)]
Sort(s) == SortBy(LAMBDA v : v, s)
SetToSorted(S) ==
  LET RECURSIVE g(_)
      g(T) == IF T = {} THEN <<>>
              ELSE LET m == MinS(T) IN <<m>> \o g(T \ {m})
  IN g(S)

\* Number of occurrences, equality as bags
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A v \in Range(s) \cup Range(t) : Count(s, v) = Count(t, v)

IsSortedBy(Key(_), s) == \A i \in 1..(Len(s) - 1) : Key(s[i]) <= Key(s[i+1])
StrictlyIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i+1]

\* Floor division and modulus for any sign of the dividend (TLC's \div and %
\* floor already; spelled out as a reminder)
FloorDiv(a, b) == a \div b
Mod(a, b) == a % b

\* Names of the clauses that do not hold, out of a set of <<name, value>>
Failing(cl) == {c[1] : c \in {d \in cl : ~d[2]}}
=============================================================================
