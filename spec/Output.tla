------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* A generator that writes its files, in any order, in a directory that    *)
(* isn't necessarily empty, and where some of the files can't be written.  *)
(* The Go generator formats the files afterwards.  Property G04: success   *)
(* means that everything was written, and what can't be written is         *)
(* reported.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Emit

CONSTANTS
  Slots,      \* number of files
  Before,     \* what can be in a file before: subset of {"absent", "empty", "shorter", "longer", "other", "altered", "same"}
  Faults,     \* reasons why a file can't be written: subset of {"full", "directory", "parent", "dangling"}
  MaxFaults,  \* maximum number of files that can't be written
  Formatters, \* subset of {"none", "good", "missing", "fails"}
  Options,    \* mandatory options of the command line
  Paths       \* what the path of a model can be: subset of {"good", "absent", "file"}

VARIABLES
  disk,      \* what each file contains
  initial,   \* what each file contained at the beginning
  fault,     \* fault of each file, or "no"
  formatter, \* what happens with the formatter
  given,     \* options that are given
  paths,     \* paths of the model that are given, in order
  todo,      \* files that haven't been written
  failed,    \* whether something failed
  result     \* "", "ok" or "fail"

vars == <<disk, initial, fault, formatter, given, paths, todo, failed, result>>
S == 1..Slots

(* The command line and the model are good: *)
Ready == given = Options /\ \A i \in 1..Len(paths) : paths[i] = "good"

Faulty(x) == {i \in S : x[i] # "no"}

Init ==
  /\ fault \in {x \in [S -> Faults \cup {"no"}] : Cardinality(Faulty(x)) <= MaxFaults}
  /\ initial \in {x \in [S -> Before] : \A i \in Faulty(fault) : x[i] = "absent"}
  /\ disk = initial
  /\ formatter \in Formatters
  /\ given \in SUBSET Options
  /\ paths \in IF "model" \in given THEN {<<x>> : x \in Paths} \cup {<<x, y>> : x, y \in Paths} ELSE {<<>>}
  /\ todo = S /\ failed = FALSE /\ result = ""

(* After a failure the rest of the files may be written or not: *)
Write(i) ==
  /\ result = "" /\ Ready /\ i \in todo
  /\ todo' = todo \ {i}
  /\ IF fault[i] = "no"
     THEN disk' = [disk EXCEPT ![i] = "new"] /\ UNCHANGED failed
     ELSE failed' = TRUE /\ disk' = [disk EXCEPT ![i] = "broken"]
  /\ UNCHANGED <<initial, fault, formatter, given, paths, result>>

GiveUp ==
  /\ result = "" /\ (failed \/ ~Ready)
  /\ result' = "fail"
  /\ UNCHANGED <<disk, initial, fault, formatter, given, paths, todo, failed>>

Finish ==
  /\ result = "" /\ Ready /\ todo = {} /\ ~failed
  /\ result' = IF formatter \in {"none", "good"} THEN "ok" ELSE "fail"
  /\ UNCHANGED <<disk, initial, fault, formatter, given, paths, todo, failed>>

Next == GiveUp \/ Finish \/ \E i \in S : Write(i)

-----------------------------------------------------------------------------
Expected == IF Ready /\ Faulty(fault) = {} /\ formatter \in {"none", "good"} THEN "ok" ELSE "fail"

SuccessMeansComplete == result = "ok" => \A i \in S : disk[i] = "new"
(* The result depends only on the faults, not on the order or on what was there before: *)
ResultFollowsFaults == result # "" => result = Expected
(* Without a mandatory option or a model nothing is touched: *)
NothingWithoutOptions == ~Ready => disk = initial

Emission ==
  (result = "" /\ todo = S /\ ~failed) => EmitCase([before |-> initial, fault |-> fault, formatter |-> formatter, given |-> given, paths |-> paths, result |-> Expected])
=============================================================================
