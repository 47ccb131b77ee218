------------------------------ MODULE Conf_Cli ------------------------------
(***************************************************************************)
(* Folder: a scratch folder with folders e.dirs and files e.fs.            *)
(* Runs: one run of the tool, or several that overlap in time.  e.runs are *)
(*   records [a, api, ok]: the invocation, what the API returns for the    *)
(*   content of its input and its options, and whether the tool reported   *)
(*   success; e.fs the files afterwards.                                   *)
(* The content of a file is [raw, shown]: digests of its bytes and of what *)
(* it shows (tables without the time taken; the panels of a plot).         *)
(***************************************************************************)
EXTENDS Cli, Json
VARIABLES l, st
S0 == [dirs |-> {}, fs |-> {}]
A(s, e) == IF e.ev = "Folder" THEN [dirs |-> Range(e.dirs), fs |-> Range(e.fs)]
           ELSE [s EXCEPT !.fs = Range(e.fs)]

\* content that the tool writes
New(x) == [raw |-> "", shown |-> x]
ApiOf(r) == IF ~r.api.ok THEN r.api
  ELSE [ok |-> TRUE, data |-> New(r.api.data), meta |-> New(r.api.meta),
        plot |-> [f \in Pictures |-> New(r.api.plot)]]
Runs(s, e) ==
  LET want == FoldL(LAMBDA acc, r : Result(s.dirs, acc, r.a, LAMBDA c, o : ApiOf(r)),
                    s.fs, e.runs)
      got == Range(e.fs)
      new == {f \in want : f.c.raw = ""}
      old == want \ new
      Shows(f) == \E g \in got : g.d = f.d /\ g.n = f.n /\ g.c.shown = f.c.shown
      targets == UNION {LET r == e.runs[i] IN
        IF r.a.inp = None THEN {} ELSE
          {<<Folder(r.a), <<Stem(r.a) \o "_metadata", "csv">> >>} : i \in 1..Len(e.runs)}
      metas == {f \in new : <<f.d, f.n>> \in targets}
      plots == {f \in new : f.n[2] \in Pictures}
  IN {<<"cli: reports success or failure", \A i \in 1..Len(e.runs) :
          e.runs[i].ok = Succeeds(s.dirs, s.fs, e.runs[i].a, LAMBDA c, o : ApiOf(e.runs[i]))>>,
      <<"cli: files in the right place", {<<f.d, f.n>> : f \in got} = {<<f.d, f.n>> : f \in want}>>,
      <<"cli: input and other files unchanged", old \subseteq got>>,
      <<"cli: data table of the API", \A f \in new \ (metas \cup plots) : Shows(f)>>,
      <<"cli: metadata table of the API", \A f \in metas : Shows(f)>>,
      <<"cli: plot of the forecast", \A f \in plots : Shows(f)>>}
C(s, e) == IF e.ev = "Folder" THEN {} ELSE Runs(s, e)
INSTANCE ConfBase WITH Clauses <- C, After <- A, St0 <- S0
=============================================================================
