---------------------------- MODULE Conf_History ----------------------------
(***************************************************************************)
(* A session of the real library.  Events of a trace:                      *)
(* Call: call number e.c with result (digest) e.out, e.fresh the digest of *)
(*       the same call in a fresh process, e.changed the names of objects  *)
(*       of the pool that differ from their initial content                *)
(***************************************************************************)
EXTENDS Prelude, Json
VARIABLES l, st
S0 == [c \in {} |-> 0]
\* results so far, per call
A(s, e) == IF e.c \in DOMAIN s THEN s ELSE s @@ (e.c :> e.out)

C(s, e) ==
  {<<"call: result of a fresh process", e.out = e.fresh>>,
   <<"call: repeated calls agree", e.c \in DOMAIN s => s[e.c] = e.out>>,
   <<"call: arguments and shared objects unchanged", e.changed = <<>>>>}

INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
