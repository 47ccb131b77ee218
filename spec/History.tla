------------------------------- MODULE History ------------------------------
(***************************************************************************)
(* A session: calls of the library on a pool of shared objects (tables,    *)
(* lists, models).  A call works on private copies, so the pool never      *)
(* changes, and what it returns depends on its arguments only.             *)
(***************************************************************************)
EXTENDS Prelude

CONSTANTS Calls,      \* 1..n
          Objects,    \* names of the pool
          Uses(_)     \* the objects a call is given

\* The result that a call gives when the pool has some content
Value(c, pool) == <<c, [o \in Uses(c) |-> pool[o]]>>
Fresh == [o \in Objects |-> 0]
Reference(c) == Value(c, Fresh)

\* What has to hold of the k-th call of a session
Independent(result, c) == result = Reference(c)
=============================================================================
