-------------------------------- MODULE Mult --------------------------------
(***************************************************************************)
(* Automatic choice of composition.  Rows [t, x, y, w]: t an instant       *)
(* (dated), y and w optional; line <<a, b>> is the weighted least squares  *)
(* line a + b x through the usable rows, residuals are integers.           *)
(***************************************************************************)
EXTENDS Freq

Used(R) == Filter(R, LAMBDA r : IsSome(r.y) /\ IsSome(r.w) /\ Get(r.w) > 0)

(***************************************************************************)
(* Least squares: every residual is multiplied by its weight and divided   *)
(* by the number of rows with its x.  The line is optimal if the normal    *)
(* equations hold.                                                         *)
(***************************************************************************)
Res(r, line) == Get(r.y) - line[1] - line[2] * r.x
IsFit(Q, line) ==
  LET m == Mat([i \in 1..Len(Q) |-> Cardinality({j \in 1..Len(Q) : Q[j].x = Q[i].x})])
      g == Mat([i \in 1..Len(Q) |-> \* gradient, for multiplicities 1, 2, 3
             ((Get(Q[i].w) * Get(Q[i].w) * 36) \div (m[i] * m[i])) * Res(Q[i], line)])
  IN /\ \A i \in 1..Len(Q) : m[i] \in 1..3
     /\ SumSeq(g) = 0
     /\ SumSeq(Mat([i \in 1..Len(Q) |-> g[i] * (Q[i].x - Q[1].x)])) = 0
     /\ \E i \in 1..Len(Q) : Q[i].x # Q[1].x

MonthKey(t) == LET c == Civil(DayOf(t)) IN 12 * c[1] + c[2]

\* Per month with at least two rows: number, sum of y, sums of r and r^2
Months(Q, line) ==
  LET k == Mat([i \in 1..Len(Q) |-> MonthKey(Q[i].t)])
      stat(M) == LET q == Mat(Filter([i \in 1..Len(Q) |-> i], LAMBDA i : k[i] = M)) IN
        [n |-> Len(q), y |-> SumSeq(Mat([i \in 1..Len(q) |-> Get(Q[q[i]].y)])),
         r |-> SumSeq(Mat([i \in 1..Len(q) |-> Res(Q[q[i]], line)])),
         rr |-> SumSeq(Mat([i \in 1..Len(q) |-> Res(Q[q[i]], line) * Res(Q[q[i]], line)]))]
      s == SetToSorted(Range(k))
  IN Mat(Filter(Mat([i \in 1..Len(s) |-> stat(s[i])]), LAMBDA x : x.n >= 2))

\* Deviations from the mean, scaled to at most 1000
Devs(v) ==
  LET n == Len(v)
      mean == SumSeq(v) \div n
      d == Mat([i \in 1..n |-> v[i] - mean])
      top == MaxS({Abs(z) : z \in Range(d)})
  IN IF top >= 1000
     THEN Mat([i \in 1..n |-> LET q == top \div 1000 + 1
                              IN IF d[i] >= 0 THEN d[i] \div q ELSE -((-d[i]) \div q)])
     ELSE d
Precise(d) == MaxS({Abs(z) : z \in Range(d)}) >= 300
Dot(a, b) == SumSeq(Mat([i \in 1..Len(a) |-> a[i] * b[i]]))

\* Is the correlation of mean and variance at least 0.8 ?  "open" if it is
\* too close (0.788 to 0.812), or if either is constant
Strong(S) ==
  IF Len(S) < 2 THEN "no"
  ELSE
  LET mean == Mat([i \in 1..Len(S) |-> (1000 * S[i].y) \div S[i].n])
      num == Mat([i \in 1..Len(S) |-> S[i].n * S[i].rr - S[i].r * S[i].r])
      top == MaxS(Range(num))
      K == IF top <= 10000 THEN 100000 ELSE IF top <= 1000000 THEN 1000 ELSE 100
      var == Mat([i \in 1..Len(S) |-> (K * num[i]) \div (S[i].n * (S[i].n - 1))])
      a == Devs(mean)
      b == Devs(var)
      xx == Dot(a, a)
      yy == Dot(b, b)
      xy == Dot(a, b)
      g == Max2(xx, yy) \div 30000 + 1
  IN IF ~Precise(a) \/ ~Precise(b) THEN "open"
     ELSE IF xy <= 0 THEN "no"
     ELSE LET p == (xx \div g) * (yy \div g)
              q == (xy \div g) * (xy \div g)
          IN IF q >= (p \div 100) * 66 THEN "yes"
             ELSE IF q <= (p \div 100) * 62 THEN "no" ELSE "open"

Excluded(Q, dated) ==
  \/ ~dated
  \/ \E i \in 1..Len(Q) : Get(Q[i].y) <= 0
  \/ Len(Q) < 4
  \/ MaxS({r.t : r \in Range(Q)}) - MinS({r.t : r \in Range(Q)}) < 60 * DAY

\* "mult", "add" or "open"
Composition(R, dated, line) ==
  LET Q == Mat(Used(R)) IN
  IF Excluded(Q, dated) THEN "add"
  ELSE LET s == Strong(Months(Q, line))
       IN IF s = "yes" THEN "mult" ELSE IF s = "no" THEN "add" ELSE "open"
=============================================================================
