------------------------------ MODULE MC_Model ------------------------------
(***************************************************************************)
(* All programs of at most Depth operations over a pool of models.  The    *)
(* invariants are the laws of the algebra; the programs are printed for    *)
(* execution on the implementation.                                        *)
(***************************************************************************)
EXTENDS Models, Json
CONSTANT Depth

TimesRing(a, b) == ((a % 9973) * (b % 9973)) % 9973

VARIABLES pool, prog, params, role
vars == <<pool, prog, params, role>>

Probe(nm, np, w, checks, cache) ==
  Leaf("probe", nm, [np |-> np, a |-> 5, b |-> 2, w |-> w, init |-> 3 * np,
                     bounds |-> <<-50 * np, 90 * np>>,
                     checks |-> checks, cache |-> cache])
Start == <<NullM, Probe("p1", 1, 0, <<>>, <<>>),
           Probe("p2", 2, 1, <<"c2">>, <<"mask_p2">>)>>
Ops == Len(prog)

Samples == {[x |-> 0, t |-> 0, d |-> 0], [x |-> 3, t |-> 3 * 1440, d |-> 3]}
\* Distinct values tell the parameters apart
P(m) == [i \in 1..NParams(m) |-> 2 * i - 3]

Init == pool = Start /\ prog = <<>> /\ params = <<>> /\ role = 0
Push(m, op) == /\ pool' = Append(pool, m) /\ prog' = Append(prog, op)
               /\ params' = P(m)
               /\ role' = 1 - role
Add == Ops < Depth /\ \E i, j \in 1..Len(pool) :
         Push(Compose("add", pool[i], pool[j]), [op |-> "add", i |-> i, j |-> j, v |-> <<>>])
Mult == Ops < Depth /\ \E i, j \in 1..Len(pool) :
         Push(Compose("mult", pool[i], pool[j]), [op |-> "mult", i |-> i, j |-> j, v |-> <<>>])
\* Fix one parameter, or all but one
FixOne == Ops < Depth /\ \E i \in 2..Len(pool) :
         LET n == NParams(pool[i]) IN
           /\ n > 0 /\ n <= 4
           /\ \E k \in 1..n, b \in BOOLEAN :
               LET v == [q \in 1..n |-> IF (q = k) = b THEN Some(q + 4) ELSE None]
               IN Push(Fix(pool[i], v, pool[i].nm \o "_fixed"),
                       [op |-> "fix", i |-> i, j |-> 0, v |-> v])
Emit == /\ Ops = Depth
        /\ PrintT("@@SCN " \o ToJson([prog |-> prog]))
        /\ UNCHANGED vars
Next == Add \/ Mult \/ FixOne \/ Emit

L == Last(pool)
\* Building models leaves the existing ones as they are
PoolInv == /\ Len(pool) = Len(Start) + Ops
           /\ SubSeq(pool, 1, Len(Start)) = Start
KeptAct == \A i \in 1..Len(pool) : pool'[i] = pool[i]
Kept == [][KeptAct]_vars
\* Pointwise homomorphism, for every pair with the newest model
HomInv == Ops < Depth \/ \A i \in 1..Len(pool), r \in 0..1, s \in Samples :
  LET a == pool[i] b == L
      pa == P(a) pb == [k \in 1..NParams(b) |-> 7 - k]
      e == Eval(Compose("add", a, b), r, pa \o pb, s)
      f == Eval(Compose("mult", a, b), r, pa \o pb, s)
  IN IF IsNull(a) THEN e = Eval(b, r, pb, s) /\ f = e
     ELSE IF IsNull(b) THEN e = Eval(a, r, pa, s) /\ f = e
     ELSE /\ e = Eval(a, 0, pa, s) + Eval(b, 0, pb, s)
          /\ f = Times(Eval(a, 1, pa, s), Eval(b, 1, pb, s))
          /\ NParams(Compose("add", a, b)) = Len(pa) + Len(pb)
\* The role matters only directly below the operator
RoleInv == L.k \in {"add", "mult"} =>
  \A s \in Samples : Eval(L, 0, P(L), s) = Eval(L, 1, P(L), s)
\* Composition is associative in its meaning
AssocInv == Ops < Depth \/ \A i \in 1..Len(pool) : LET a == pool[i] IN
  \A s \in Samples : \A op \in {"add", "mult"} :
    LET p == P(a) \o P(L) \o P(a) IN
      (~IsNull(a) /\ ~IsNull(L)) =>
        Eval(Compose(op, Compose(op, a, L), a), 0, p, s)
        = Eval(Compose(op, a, Compose(op, L, a)), 0, p, s)
\* Fixing a part is fixing the whole at its offset, all at once or in turn
FixInv == \A i \in 2..Len(pool) : LET a == pool[i] n == NParams(a) m == NParams(L) IN
  (n > 0 /\ ~IsNull(L)) =>
    LET v == [q \in 1..n |-> IF q = 1 THEN Some(9) ELSE None]
        no == [q \in 1..m |-> None]
        p == [q \in 1..(m + n - 1) |-> q - 2]
    IN \A s \in Samples :
         /\ Eval(Compose("add", L, Fix(a, v, "f")), 0, p, s)
            = Eval(Fix(Compose("add", L, a), no \o v, "g"), 0, p, s)
         /\ Eval(Compose("mult", L, Fix(a, v, "f")), 0, p, s)
            = Eval(Fix(Compose("mult", L, a), no \o v, "g"), 0, p, s)
GuessInv == /\ \A r \in 0..1 : Len(InitParams(L, r)) = NParams(L)
            /\ Len(Bounds(L, 1)) = NParams(L)
            /\ \A k \in 1..NParams(L), r \in 0..1 :
                 Bounds(L, 1)[k] <= InitParams(L, r)[k] /\ InitParams(L, r)[k] <= Bounds(L, 2)[k]
UnionInv == L.k \in {"add", "mult"} =>
  /\ CacheOf(L) = CacheOf(L.c[1]) \cup CacheOf(L.c[2])
  /\ ChecksOf(L) = ChecksOf(L.c[1]) \cup ChecksOf(L.c[2])
=============================================================================
