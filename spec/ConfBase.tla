----------------------------- MODULE ConfBase ------------------------------
(***************************************************************************)
(* Trace validation.  The file named by the environment variable TRACE     *)
(* holds one JSON record per observed event of the implementation.  Each   *)
(* event is checked against the specification: Clauses(st, e) is the set   *)
(* of pairs <<name, holds>> that the specification requires of event e in  *)
(* state st, After(st, e) the state that follows.  Verdicts are total: the *)
(* names of failing clauses are printed and validation continues from the  *)
(* observed state, so that one deviation does not hide the rest.           *)
(***************************************************************************)
EXTENDS Prelude, Json, IOUtils

CONSTANTS Clauses(_, _), After(_, _), St0
VARIABLES l, st

\* The trace is read once, into a register of TLC
Trace == TLCGet(42)
First == IF "FIRST" \in DOMAIN IOEnv THEN atoi(IOEnv.FIRST) ELSE 1

Init == /\ TLCSet(42, ndJsonDeserialize(IOEnv.TRACE))
        /\ l = First /\ st = St0
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         s == IF e.begin THEN St0 ELSE st
         bad == Failing(Clauses(s, e))
     IN /\ PrintT("@@EV " \o ToString(l))
        /\ (bad # {} => PrintT("@@FAIL " \o ToString(l) \o " " \o ToString(bad)))
        /\ st' = After(s, e)
  /\ l' = l + 1
=============================================================================
