--------------------------- MODULE MC_Candidates ---------------------------
(***************************************************************************)
(* Design of the generation of candidates: pairs of trend and seasonality  *)
(* are composed one by one, in any order and possibly repeatedly; then the *)
(* calendar models are composed with the results.  What is generated is    *)
(* the set that Pipeline defines, for every configuration and every class  *)
(* of span and spacing.                                                    *)
(***************************************************************************)
EXTENDS Pipeline, Json

CONSTANT Full
A1 == Leaf("constant", "A", <<>>)
B1 == Leaf("linear", "B", <<>>)
C1 == Leaf("constant", "C", <<>>)
D1 == Leaf("dummy", "D", <<>>)
Trends == {None, Some(<<A1>>), Some(<<A1, NullM, A1>>), Some(<<>>)}
Seasons == {None, Some(<<>>), Some(<<C1, NullM>>)}
Weeklies == IF Full THEN {None, Some(<<>>), Some(<<D1>>), Some(<<NullM, C1>>)}
            ELSE {None, Some(<<D1>>)}
Yearlies == IF Full THEN Weeklies ELSE {None, Some(<<>>)}
Cals == {None, Some(<<D1>>), Some(<<>>)}
H == DAY \div 2
Spans == {10 * DAY, 10 * DAY + H, 10 * DAY + H + 60, 365 * DAY, 366 * DAY,
          547 * DAY + H, 548 * DAY, 730 * DAY, 731 * DAY}
Spacings == {0, 60, DAY, DAY + 60, 92 * DAY, 93 * DAY}

VARIABLES cfg, span, spacing, op, todo, acc, stage
vars == <<cfg, span, spacing, op, todo, acc, stage>>

Trend == IF IsSome(cfg.trend) THEN Range(Get(cfg.trend))
         ELSE {Linear} \cup (IF UseRamp(span) THEN {Compose("add", Linear, Ramp)} ELSE {})
Season == IF IsSome(cfg.season) THEN Range(Get(cfg.season))
          ELSE AutoSeason(op, span, spacing, cfg.weekly, cfg.yearly)
Cal == IF IsSome(cfg.cal) /\ UseCalendar(span, spacing) THEN Range(Get(cfg.cal)) ELSE {}

Init ==
  /\ cfg \in [trend : Trends, season : Seasons, weekly : Weeklies,
              yearly : Yearlies, naive : {None}, cal : Cals, mode : {"x"}]
  \* (parts that the others make irrelevant)
  /\ (cfg.season # None => cfg.weekly = None /\ cfg.yearly = None)
  /\ span \in Spans /\ spacing \in Spacings
  /\ (spacing = 0 => span = 10 * DAY) /\ (spacing > span => FALSE)
  /\ op \in {"add", "mult"}
  /\ acc = {} /\ stage = "pairs"
  /\ todo = Trend \X Season

Pair == /\ stage = "pairs" /\ todo # {}
        /\ LET x == CHOOSE x \in todo : TRUE IN
             /\ todo' = todo \ {x}
             /\ acc' = acc \cup {Compose(op, x[1], x[2])}
        /\ UNCHANGED <<cfg, span, spacing, op, stage>>
Single == /\ stage = "pairs" /\ todo = {}
          /\ LET a == IF Season = {} THEN Trend ELSE IF Trend = {} THEN Season ELSE acc
             IN /\ acc' = IF Cal = {} THEN a ELSE IF a = {} THEN Cal ELSE {}
                /\ todo' = IF Cal = {} \/ a = {} THEN {} ELSE a \X Cal
          /\ stage' = "cal"
          /\ UNCHANGED <<cfg, span, spacing, op>>
AddCal == /\ stage = "cal" /\ todo # {}
          /\ LET x == CHOOSE x \in todo : TRUE IN
               /\ todo' = todo \ {x}
               /\ acc' = acc \cup {Compose(op, x[1], x[2])}
          /\ UNCHANGED <<cfg, span, spacing, op, stage>>
Finish == /\ stage = "cal" /\ todo = {} /\ stage' = "done"
          /\ PrintT("@@SCN " \o ToJson([cfg |-> cfg, span |-> span,
                                        spacing |-> spacing, op |-> op]))
          /\ UNCHANGED <<cfg, span, spacing, op, todo, acc>>
Next == Pair \/ Single \/ AddCal \/ Finish

DoneInv == stage = "done" =>
  /\ acc = CandidatesIn([cfg EXCEPT !.mode = op], TRUE, span, spacing, "D", op)
  \* names identify candidates
  /\ \A a, b \in acc : a.nm = b.nm => a = b
  \* every candidate has at most one part of each list
  /\ \A a \in acc : Len(Leaves(a)) <= 5
  /\ Cardinality(acc) <= Max2(1, Cardinality(Trend)) * Max2(1, Cardinality(Season))
       * Max2(1, Cardinality(Cal))
\* Longer spans and denser samples never remove candidates
MonotoneInv == stage = "done" /\ spacing > 0 =>
  \A d \in {DAY, 400 * DAY} :
    AutoSeason(op, span, spacing, cfg.weekly, cfg.yearly) \subseteq
      AutoSeason(op, span + d, spacing, cfg.weekly, cfg.yearly) \/
      cfg.weekly # None \/ cfg.yearly # None
\* The composition kind only changes how parts are combined
KindInv == stage = "done" =>
  Cardinality(AutoSeason("add", span, spacing, cfg.weekly, cfg.yearly)) =
  Cardinality(AutoSeason("mult", span, spacing, cfg.weekly, cfg.yearly))
=============================================================================
