------------------------------ MODULE MC_Axis ------------------------------
(***************************************************************************)
(* Design of the time axis: a source is sampled on a grid with gaps, its   *)
(* frequency is detected, gaps are filled, and the forecast grid is        *)
(* extended one sample at a time up to the horizon.                        *)
(***************************************************************************)
EXTENDS Freq, Json

CONSTANTS F,        \* frequencies
          Bases,    \* days from which the first sample is searched
          Times,    \* times of day of the samples
          MaxLen,   \* grid positions that are sampled or skipped
          Years     \* horizons, 10000 * p + q for p/q years

VARIABLES f, pos, have, phase, det, fc, yr
vars == <<f, pos, have, phase, det, fc, yr>>

FirstOnGrid(ff, n, tm) ==
  LET t(m) == m * DAY + tm
  IN t(MinS({m \in n..(n + 366) : OnGrid(ff, t(m), t(m))}))

P == yr \div 10000
Q == yr % 10000

Init ==
  /\ f \in F
  /\ \E n \in Bases, tm \in Times :
       /\ (tm = 0 \/ f \in {"H", "D"} \/ IsWeekly(f))
       /\ have = <<FirstOnGrid(f, n, tm)>>
  /\ pos = have[1]
  /\ phase = "sample" /\ det = "" /\ fc = <<>> /\ yr = 10001

FillGridOf(ff, a, b) ==
  LET RECURSIVE walk(_, _)
      walk(acc, t) == IF t > b THEN acc ELSE walk(Append(acc, t), NextPoint(ff, t))
  IN walk(<<>>, a)

Steps(a, b) == Len(FillGridOf(f, a, b))

Sample ==
  /\ phase = "sample" /\ Steps(have[1], pos) < MaxLen
  /\ pos' = NextPoint(f, pos)
  /\ have' = Append(have, pos')
  /\ UNCHANGED <<f, phase, det, fc, yr>>
Skip ==
  /\ phase = "sample" /\ Steps(have[1], pos) < MaxLen
  /\ pos' = NextPoint(f, pos)
  /\ UNCHANGED <<f, have, phase, det, fc, yr>>
Detect ==
  /\ phase = "sample" /\ Len(have) >= 2 /\ Last(have) = pos
  /\ phase' = "extend"
  /\ det' = DetectFreq(Range(have))
  /\ yr' \in Years
  /\ Horizon(UsedFreq(det', have[1]), yr' \div 10000, yr' % 10000) <= 14
  /\ fc' = FillGridOf(UsedFreq(det', have[1]), have[1], Last(have))
  /\ UNCHANGED <<f, pos, have>>
Beyond == Cardinality({i \in 1..Len(fc) : fc[i] > Last(have)})
K == Horizon(UsedFreq(det, have[1]), P, Q)
Extend ==
  /\ phase = "extend" /\ Beyond < K
  /\ fc' = Append(fc, NextPoint(UsedFreq(det, have[1]), Last(fc)))
  /\ UNCHANGED <<f, pos, have, phase, det, yr>>
Finish ==
  /\ phase = "extend" /\ Beyond = K
  /\ phase' = "done"
  /\ PrintT("@@SCN " \o ToJson([f |-> f, p |-> P, q |-> Q, have |-> have]))
  /\ UNCHANGED <<f, pos, have, det, fc, yr>>
Next == Sample \/ Skip \/ Detect \/ Extend \/ Finish
Spec == Init /\ [][Next]_vars

Adjacent == \E i \in 1..(Len(have) - 1) : have[i+1] = NextPoint(f, have[i])

\* The frequency of a series with two adjacent samples is its sampling
\* frequency; without, samples are still on a grid finer than their spacing
DetectInv == phase # "sample" => (Adjacent => det = f)
\* Calendar frequencies are recognised in spite of the varying unit lengths
KnownInv == phase # "sample" => det \in Freqs \cup {""}
GridInv == phase = "done" /\ det = f => IsGrid(f, have[1], Last(have), K, fc)
CoverInv == phase = "done" /\ det = f => Range(have) \subseteq Range(fc)
NoRepeat == StrictlyIncreasing(fc)
FillInv ==
  phase = "done" /\ det = f /\ ~Regular(TRUE, have) =>
    LET g == FillGrid(TRUE, have) IN
      /\ Range(have) \subseteq Range(g)
      /\ g[1] = have[1] /\ Last(g) = Last(have)
      /\ FillGrid(TRUE, g) = g
CivilInv == \A t \in Range(fc) : LET c == Civil(DayOf(t)) IN
              DayNum(c[1], c[2], c[3]) = DayOf(t) /\ c[3] <= MonthLen(c[1], c[2])
=============================================================================
