----------------------------- MODULE MC_Inputs -----------------------------
(***************************************************************************)
(* Design: inputs are forecast one after the other; each call returns its  *)
(* tables or nothing; the tables are collected and joined in the end.  The *)
(* shared options never change.                                            *)
(***************************************************************************)
EXTENDS Inputs, Json
CONSTANTS MaxInputs, Skip    \* Skip: empty results are left out

Kinds == {"daily", "weekly", "undated", "short", "empty", "late", "unused", "several"}
Ids == {"a", "b"}
Input == [kind : Kinds, id : Ids, trend : {None, Some(<<"linear", "ramp">>)}]
\* The result of an input on its own: rows named by it
Rows(in, t) == IF in.kind = "short" /\ t = "forecast" THEN <<>> ELSE <<<<in.id, in.kind, t>>>>
Alone(in) == IF in.kind = "empty" THEN None ELSE Some([t \in Tables |-> Rows(in, t)])

VARIABLES todo, done, acc, out, phase
vars == <<todo, done, acc, out, phase>>
Init == /\ todo \in UNION {[1..n -> Input] : n \in 0..MaxInputs}
        /\ done = <<>> /\ acc = <<>> /\ out = None /\ phase = "run"
Run == /\ phase = "run" /\ todo # <<>>
       /\ acc' = IF Skip /\ Alone(Head(todo)) = None THEN acc
                 ELSE Append(acc, Alone(Head(todo)))
       /\ done' = Append(done, Head(todo)) /\ todo' = Tail(todo)
       /\ UNCHANGED <<out, phase>>
Finish == /\ phase = "run" /\ todo = <<>>
          /\ phase' = "done"
          /\ out' = IF acc = <<>> THEN None
                    ELSE Some([t \in Tables |->
                      FoldL(LAMBDA b, r : b \o Get(r)[t], <<>>, acc)])
          /\ (done # <<>> => PrintT("@@SCN " \o ToJson(done)))
          /\ UNCHANGED <<todo, done, acc>>
Next == Run \/ Finish
ConcatInv == phase = "done" => out = Concat([i \in 1..Len(done) |-> Alone(done[i])])
\* Leaving out an input removes its rows only
RowsOf(o, t, id) == IF o = None THEN <<>> ELSE Filter(Get(o)[t], LAMBDA r : r[1] = id)
IndependentInv == phase = "done" => \A id \in Ids :
  LET own == Filter(done, LAMBDA d : d.id = id)
      alone == Concat([i \in 1..Len(own) |-> Alone(own[i])])
  IN \A t \in Tables : RowsOf(out, t, id) = RowsOf(alone, t, id)
AssocInv == \A i \in 1..Len(done) :
  Join(Concat([j \in 1..i |-> Alone(done[j])]),
       Concat([j \in 1..(Len(done) - i) |-> Alone(done[i + j])])) =
  Concat([j \in 1..Len(done) |-> Alone(done[j])])
=============================================================================
