--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tool as a transformer of a file system.                *)
(*                                                                         *)
(* A file is [d, n, c]: its folder, its name as the sequence of the parts  *)
(* between the dots, and its content.  An invocation a is                  *)
(*   a.inp   the optional input file [d, n]                                *)
(*   a.out   where to write: [k |-> "none"], [k |-> "dir", d],             *)
(*           [k |-> "file", d, n] (beside that file)                       *)
(*   a.opt   the other options                                             *)
(*   a.fmt   the format of the plot; a.library: the plotting library is    *)
(*           installed                                                     *)
(* Api(c, o) is what the API returns for content c and options o:          *)
(* [ok, data, meta, plot] where plot is a function of the format.          *)
(***************************************************************************)
EXTENDS Prelude

At(fs, d, n) == {f \in fs : f.d = d /\ f.n = n}
Exists(fs, d, n) == At(fs, d, n) # {}
Content(fs, d, n) == (CHOOSE f \in fs : f.d = d /\ f.n = n).c

Pictures == {"png", "html"}
Folder(a) == IF a.out.k = "none" THEN Get(a.inp).d ELSE a.out.d
\* the part of the name before the first dot
Stem(a) == Get(a.inp).n[1]

\* A run starts if its input is a file and its output place exists
Starts(dirs, fs, a) ==
  /\ IsSome(a.inp)
  /\ Exists(fs, Get(a.inp).d, Get(a.inp).n)
  /\ (a.out.k = "dir" => a.out.d \in dirs)
  /\ (a.out.k = "file" => Exists(fs, a.out.d, a.out.n))

Succeeds(dirs, fs, a, Api(_, _)) ==
  Starts(dirs, fs, a) /\ Api(Content(fs, Get(a.inp).d, Get(a.inp).n), a.opt).ok

DataFile(a, r) == [d |-> Folder(a), n |-> <<Stem(a) \o "_fcast", "csv">>, c |-> r.data]
MetaFile(a, r) == [d |-> Folder(a), n |-> <<Stem(a) \o "_metadata", "csv">>, c |-> r.meta]
PlotFiles(a, r) ==
  IF a.fmt \in Pictures /\ a.library
  THEN {[d |-> Folder(a), n |-> <<Stem(a) \o "_fcast", a.fmt>>, c |-> r.plot[a.fmt]]}
  ELSE {}
Written(a, r) == {DataFile(a, r), MetaFile(a, r)} \cup PlotFiles(a, r)

Put(fs, new) ==
  {f \in fs : \A g \in new : <<f.d, f.n>> # <<g.d, g.n>>} \cup new

Result(dirs, fs, a, Api(_, _)) ==
  IF Succeeds(dirs, fs, a, Api)
  THEN Put(fs, Written(a, Api(Content(fs, Get(a.inp).d, Get(a.inp).n), a.opt)))
  ELSE fs
=============================================================================
