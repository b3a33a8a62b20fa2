-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Runs of the tool on the same model (properties M04 and G03).  When the  *)
(* model is complete, perhaps with a defect, its declarations are placed   *)
(* in files, in any order, and the tool reads them one by one.  The model  *)
(* that the tool gets has to be the same for all the layouts, and it has   *)
(* to notice the defect in all of them.                                    *)
(***************************************************************************)
EXTENDS ModelGen

CONSTANTS
  Layouts,      \* number of layouts of each model
  Files,        \* maximum number of files of each version
  Dirs,       \* maximum number of directories with models, where the files are distributed
  Defects,      \* set of kinds of defects, "none" if there is none
  Environments  \* number of different environments where the tool can run

VARIABLES
  phase,    \* "grow", "place", "read" or "end"
  defect,   \* kind of defect and the version where it is
  place,    \* place[v][f]: sequence of the declarations of file f of version v
  todo,     \* declarations that haven't been placed, as pairs of version and declaration
  got,      \* got[v]: the declarations that the reader found
  repeated, \* whether the reader found a repeated declaration
  runs      \* the finished runs: layout, environment and verdict

vars == <<m, steps, phase, defect, place, todo, got, repeated, runs>>

-----------------------------------------------------------------------------
(* A declaration has the kind of thing that it declares, an index, and a copy number that is
   different from zero for what doesn't belong to the model. *)
Decl(k, i, c) == [k |-> k, i |-> i, c |-> c]

Good(v) ==
  {Decl("type", i, 0) : i \in 1..Len(m[v].types)}
  \cup {Decl("resource", i, 0) : i \in 1..Len(m[v].resources)}
  \cup {Decl("error", i, 0) : i \in 1..Len(m[v].errors)}

DeclarationsWith(v, x) ==
  IF x.v # v THEN Good(v)
  ELSE CASE x.k = "none" -> Good(v)
         [] x.k = "root" -> Good(v) \ {Decl("resource", 1, 0)}
         [] x.k = "again" -> Good(v) \cup {[x.d EXCEPT !.c = 1]}
         (* A new declaration that can't be accepted: of a class that uses a type that doesn't exist,
            a resource with a wrong method, or a resource with a locator without target *)
         [] OTHER -> Good(v) \cup {Decl(x.k, 0, 1)}

Declarations(v) == DeclarationsWith(v, defect)

NoDecl == Decl("none", 0, 0)

Same(a, b) == a.k = b.k /\ a.i = b.i

Accepted == defect.k = "none"

-----------------------------------------------------------------------------
Init ==
  /\ GenInit
  /\ phase = "grow" /\ defect = [k |-> "none", v |-> 0, d |-> NoDecl]
  /\ place = <<>> /\ todo = {} /\ got = <<>> /\ repeated = FALSE /\ runs = <<>>

Grow == phase = "grow" /\ GenNext /\ UNCHANGED <<phase, defect, place, todo, got, repeated, runs>>

Start(x) ==
  /\ place' = [v \in 1..Len(m) |-> [f \in 1..Files |-> <<>>]]
  /\ todo' = UNION {{<<v, d>> : d \in DeclarationsWith(v, x)} : v \in 1..Len(m)}

ChooseDefect ==
  /\ phase = "grow" /\ Generated
  /\ phase' = "place"
  /\ \E k \in Some(Defects) : \E v \in Some(1..Len(m)) : \E d \in Some(Good(v)) :
       defect' = [k |-> k, v |-> v, d |-> IF k = "again" THEN d ELSE NoDecl]
  /\ Start(defect')
  /\ UNCHANGED <<m, steps, got, repeated, runs>>

Put ==
  /\ phase = "place" /\ todo # {}
  /\ \E x \in Some(todo) : \E f \in Some(1..Files) :
       /\ place' = [place EXCEPT ![x[1]][f] = Append(@, x[2])]
       /\ todo' = todo \ {x}
  /\ UNCHANGED <<m, steps, phase, defect, got, repeated, runs>>

StartReading ==
  /\ phase = "place" /\ todo = {}
  /\ phase' = "read"
  /\ got' = [v \in 1..Len(m) |-> {}] /\ repeated' = FALSE
  /\ UNCHANGED <<m, steps, defect, place, todo, runs>>

(* The reader goes through the files in order, and notices what it already found.  Which directory each file is in
   doesn't matter, nor whether there are other files and directories where they aren't expected. *)
FileDecls(s) == {s[i] : i \in 1..Len(s)}
RepeatedIn(s, before) ==
  \E i \in 1..Len(s) : (\E b \in before : Same(b, s[i])) \/ (\E j \in 1..(i - 1) : Same(s[j], s[i]))

ReadAll ==
  /\ phase = "read"
  /\ LET all(v) == UNION {FileDecls(place[v][f]) : f \in 1..Files}
         rep(v) == \E f \in 1..Files : RepeatedIn(place[v][f], UNION {FileDecls(place[v][g]) : g \in 1..(f - 1)})
     IN  /\ got' = [v \in 1..Len(m) |-> all(v)]
         /\ repeated' = \E v \in 1..Len(m) : rep(v)
  /\ phase' = "judge"
  /\ UNCHANGED <<m, steps, defect, place, todo, runs>>

Verdict ==
  /\ ~repeated
  /\ \A v \in 1..Len(m) : Decl("resource", 1, 0) \in got[v]
  /\ \A v \in 1..Len(m) : \A d \in got[v] : d.c = 0

Judge ==
  /\ phase = "judge"
  /\ \E e \in Some(1..Environments) : \E n \in Some(1..Dirs) : \E in \in Some([1..Files -> 1..n]) : \E x \in Some({TRUE, FALSE}) :
       runs' = Append(runs, [place |-> place, inputs |-> in, stray |-> x, env |-> e, ok |-> Verdict])
  /\ IF Len(runs') < Layouts
     THEN phase' = "place" /\ Start(defect)
     ELSE phase' = "end" /\ UNCHANGED <<place, todo>>
  /\ UNCHANGED <<m, steps, defect, got, repeated>>

Next == Grow \/ ChooseDefect \/ Put \/ StartReading \/ ReadAll \/ Judge

-----------------------------------------------------------------------------
(* What has been read doesn't depend on the layout: *)
SameContent == phase = "judge" => \A v \in 1..Len(m) : got[v] = Declarations(v)

(* And neither does the verdict: *)
SameVerdict == \A i \in 1..Len(runs) : runs[i].ok = Accepted

Emission ==
  phase = "end" => EmitCase([model |-> m, defect |-> defect, runs |-> runs, ok |-> Accepted])
=============================================================================
