------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* Design of the tool: a run checks its arguments, reads its input once,   *)
(* computes, and then writes one file at a time; it may be killed in       *)
(* between.  Several runs follow each other in the same folders, or        *)
(* (NProcs > 1) overlap in time.                                           *)
(***************************************************************************)
EXTENDS Cli, Json
CONSTANTS MaxRuns, NProcs, Opts, Formats, Crashes, Emit

Dirs == {"D", "E"}
Raw == {[d |-> "D", n |-> <<"a", "csv">>, c |-> "u"],
        [d |-> "D", n |-> <<"a", "v2", "csv">>, c |-> "v"],
        [d |-> "E", n |-> <<"b", "csv">>, c |-> "v"],
        [d |-> "E", n |-> <<"a", "txt">>, c |-> "bad"]}
Inputs == {Some([d |-> f.d, n |-> f.n]) : f \in Raw} \cup
  {None, Some([d |-> "D", n |-> <<"none", "csv">>]),
   Some([d |-> "E", n |-> <<"b_fcast", "csv">>])}
Outs == {[k |-> "none"], [k |-> "dir", d |-> "D"], [k |-> "dir", d |-> "E"],
         [k |-> "dir", d |-> "missing"],
         [k |-> "file", d |-> "E", n |-> <<"b", "csv">>],
         [k |-> "file", d |-> "E", n |-> <<"none", "csv">>]}
Args == {[inp |-> i, out |-> o, opt |-> p, fmt |-> f, library |-> TRUE] :
         i \in Inputs, o \in Outs, p \in Opts, f \in Formats}

Api(c, o) == [ok |-> c # "bad", data |-> "data(" \o c \o "," \o o \o ")",
              meta |-> "meta(" \o c \o "," \o o \o ")",
              plot |-> [f \in Pictures |-> f \o "(" \o c \o "," \o o \o ")"]]

VARIABLES fs,     \* the files
          procs,  \* per process: [pc, a, r]
          log     \* started runs, with what the specification expects
vars == <<fs, procs, log>>
Idle == [pc |-> "idle"]
Init == fs = Raw /\ procs = [p \in 1..NProcs |-> Idle] /\ log = <<>>

Start(p, a) ==
  /\ procs[p].pc \in {"idle", "done", "killed"} /\ Len(log) < MaxRuns
  /\ procs' = [procs EXCEPT ![p] = [pc |-> IF Starts(Dirs, fs, a) THEN "read" ELSE "done",
                                    a |-> a, r |-> None, todo |-> <<>>]]
  /\ log' = Append(log, a)
  /\ UNCHANGED fs
Read(p) ==
  /\ procs[p].pc = "read"
  /\ LET a == procs[p].a r == Api(Content(fs, Get(a.inp).d, Get(a.inp).n), a.opt) IN
     procs' = [procs EXCEPT ![p].pc = IF r.ok THEN "write" ELSE "done",
                            ![p].r = Some(r),
                            ![p].todo = <<DataFile(a, r), MetaFile(a, r)>> \o
                              (IF PlotFiles(a, r) = {} THEN <<>>
                               ELSE <<CHOOSE f \in PlotFiles(a, r) : TRUE>>)]
  /\ UNCHANGED <<fs, log>>
Write(p) ==
  /\ procs[p].pc = "write" /\ procs[p].todo # <<>>
  /\ fs' = Put(fs, {procs[p].todo[1]})
  /\ procs' = [procs EXCEPT ![p].todo = Tail(@)]
  /\ UNCHANGED log
Finish(p) == /\ procs[p].pc = "write" /\ procs[p].todo = <<>>
             /\ procs' = [procs EXCEPT ![p].pc = "done"] /\ UNCHANGED <<fs, log>>
Kill(p) == /\ Crashes /\ procs[p].pc \in {"read", "write"}
           /\ procs' = [procs EXCEPT ![p].pc = "killed"] /\ UNCHANGED <<fs, log>>
Next == \E p \in 1..NProcs : (\E a \in Args : Start(p, a)) \/ Read(p) \/ Write(p)
                             \/ Finish(p) \/ Kill(p)

Quiet == \A p \in 1..NProcs : procs[p].pc \in {"idle", "done"}
\* what the specification makes of the runs, one after the other
Expected == FoldL(LAMBDA acc, a : Result(Dirs, acc, a, Api), Raw, log)
\* Sequential runs, step by step, are the atomic runs of the specification
Refines == NProcs = 1 /\ ~Crashes /\ Quiet => fs = Expected
\* Input files are never changed, whatever happens
InputsKept == Raw \subseteq fs
OneFileOfAName == \A f, g \in fs : f.d = g.d /\ f.n = g.n => f = g
\* Whatever is in the folder is an input or the complete output of some run
Genuine == \A f \in fs \ Raw : \E i \in 1..Len(log) :
  log[i].inp # None /\ f.d = Folder(log[i]) /\ f.n[1] \in
    {Stem(log[i]) \o "_fcast", Stem(log[i]) \o "_metadata"}
Disjoint(a, b) == a.inp = None \/ b.inp = None \/ Folder(a) # Folder(b) \/ Stem(a) # Stem(b)
\* runs that overlap and write elsewhere (and do not read what the other
\* writes) do not disturb each other
Independent ==
  (NProcs > 1 /\ ~Crashes /\ Quiet /\
   \A i, j \in 1..Len(log) : i # j => Disjoint(log[i], log[j]) /\
     (log[i].inp # None => \E f \in Raw : f.d = Get(log[i].inp).d /\ f.n = Get(log[i].inp).n)
     /\ (log[i].out.k = "file" => log[i].out.n # <<"none", "csv">>))
  => fs = Expected
\* repeating the last run changes nothing
Idempotent == Quiet /\ log # <<>> /\ Last(log).inp # None /\
   Exists(Raw, Get(Last(log).inp).d, Get(Last(log).inp).n) /\ NProcs = 1 /\ ~Crashes =>
  Result(Dirs, fs, Last(log), Api) = fs
Gen == Emit /\ Quiet /\ Len(log) = MaxRuns => PrintT("@@SCN " \o ToJson([runs |-> log]))
=============================================================================
