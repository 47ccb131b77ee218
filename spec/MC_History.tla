----------------------------- MODULE MC_History -----------------------------
(***************************************************************************)
(* Design of a session.  A call copies its arguments, computes variables   *)
(* of the inputs of the model it fits (kept only for the duration of the   *)
(* call), works on its copies, and returns or fails.                       *)
(***************************************************************************)
EXTENDS History, Json

CONSTANTS MaxCalls, Share, Discipline

VARIABLES pool, hist, results, phase, work, vars_of
vars == <<pool, hist, results, phase, work, vars_of>>

None0 == [o \in {} |-> 0]
Init == /\ pool = Fresh /\ hist = <<>> /\ results = <<>>
        /\ phase = "idle" /\ work = None0 /\ vars_of = <<>>

Begin(c) ==
  /\ phase = "idle" /\ Len(hist) < MaxCalls
  /\ hist' = Append(hist, c)
  /\ work' = [o \in Uses(c) |-> pool[o]]     \* copies
  /\ vars_of' = <<>>
  /\ phase' = "copied"
  /\ UNCHANGED <<pool, results>>
Precompute ==
  /\ phase = "copied" /\ phase' = "cached"
  /\ vars_of' = work
  /\ UNCHANGED <<pool, hist, results, work>>
Modify == \* the copies are filtered, sorted, given columns
  /\ phase = "cached" /\ phase' = "modified"
  /\ work' = [o \in DOMAIN work |-> work[o] + 1]
  /\ pool' = IF Discipline THEN pool
             ELSE [o \in Objects |-> IF o \in DOMAIN work THEN work'[o] ELSE pool[o]]
  /\ UNCHANGED <<hist, results, vars_of>>
Return ==
  /\ phase \in {"modified"} /\ phase' = "idle"
  /\ results' = Append(results, <<Last(hist), vars_of>>)
  /\ work' = None0 /\ vars_of' = <<>>
  /\ UNCHANGED <<pool, hist>>
Fail == \* at any point
  /\ phase \in {"copied", "cached", "modified"} /\ phase' = "idle"
  /\ results' = Append(results, <<>>)
  /\ work' = None0 /\ vars_of' = <<>>
  /\ UNCHANGED <<pool, hist>>
End ==
  /\ phase = "idle" /\ Len(hist) = MaxCalls /\ phase' = "over"
  /\ (Share \/ \A i \in 1..Len(results) : results[i] # <<>>) =>
       PrintT("@@SCN " \o ToJson(hist))
  /\ UNCHANGED <<pool, hist, results, work, vars_of>>
Next == (\E c \in Calls : Begin(c)) \/ Precompute \/ Modify \/ Return \/ Fail \/ End

PoolInv == pool = Fresh
IndependentInv ==
  \A i \in 1..Len(results) : results[i] = <<>> \/ Independent(results[i], hist[i])
\* equal calls give equal results
RepeatInv == \A i, j \in 1..Len(results) :
  hist[i] = hist[j] /\ results[i] # <<>> /\ results[j] # <<>> => results[i] = results[j]
CallsDef == 1..47
UsesDef(c) == {o \in Objects : (o + c) % 3 = 0}
=============================================================================
