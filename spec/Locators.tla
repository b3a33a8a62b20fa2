------------------------------ MODULE Locators ------------------------------
(***************************************************************************)
(* Graphs of resources connected by locators.  The tool walks the paths    *)
(* that start in the root and stops at the first resource that is already  *)
(* part of the path.  The state is the graph and one such walk.  Property  *)
(* M03: the walk detects a loop if and only if the part of the graph that  *)
(* is reachable from the root isn't a directed acyclic graph.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Emit

CONSTANTS
  Nodes,    \* sequence of names of resources, the first is the root
  MaxEdges, \* maximum number of locators
  Mode      \* "walk" to explore also the walks, "graphs" to enumerate only graphs, "pairs" to enumerate
            \* pairs of versions, "grow" and "dag" to simulate

VARIABLES
  edges, \* locators of the version that is walked
  other, \* locators of another version, that has resources with the same names
  path, loop, done

vars == <<edges, other, path, loop, done>>

N == 1..Len(Nodes)
Root == 1
AllEdges == N \X N

-----------------------------------------------------------------------------
(* Declarative: *)
RECURSIVE Close(_, _)
Close(es, S) ==
  LET T == S \cup {e[2] : e \in {x \in es : x[1] \in S}}
  IN  IF T = S THEN S ELSE Close(es, T)

After(es, n) == Close(es, {e[2] : e \in {x \in es : x[1] = n}})

Reachable(es) == Close(es, {Root})

HasLoop(es) == \E n \in Reachable(es) : n \in After(es, n)

-----------------------------------------------------------------------------
(* Long chains of resources, with or without one locator that goes back: *)
Chain == {<<i, i + 1>> : i \in 1..(Len(Nodes) - 1)}

Init ==
  /\ edges \in IF Mode \in {"grow", "dag"} THEN {{}}
               ELSE IF Mode = "chain" THEN {Chain} \cup {Chain \cup {<<Len(Nodes), k>>} : k \in N}
               ELSE {es \in SUBSET AllEdges : Cardinality(es) <= MaxEdges}
  /\ other \in IF Mode = "pairs" THEN {es \in SUBSET AllEdges : Cardinality(es) <= MaxEdges} ELSE {{}}
  /\ path = <<Root>>
  /\ loop = FALSE
  /\ done = FALSE

(* Follow a locator of the last resource of the path: *)
Walk ==
  /\ Mode = "walk"
  /\ ~loop
  /\ \E e \in edges :
       /\ e[1] = path[Len(path)]
       /\ IF \E i \in 1..Len(path) : path[i] = e[2]
          THEN loop' = TRUE /\ path' = path
          ELSE loop' = FALSE /\ path' = Append(path, e[2])
  /\ UNCHANGED <<edges, other, done>>

(* Add a locator: *)
Grow ==
  /\ Mode = "grow"
  /\ ~done
  /\ Cardinality(edges) < MaxEdges
  /\ \E e \in AllEdges \ edges : edges' = edges \cup {e}
  /\ UNCHANGED <<other, path, loop, done>>

(* Add a locator that doesn't introduce a loop; without these steps almost all the big graphs
   would have one: *)
GrowAcyclic ==
  /\ Mode = "dag"
  /\ ~done
  /\ Cardinality(edges) < MaxEdges
  /\ \E e \in AllEdges \ edges :
       /\ ~HasLoop(edges \cup {e})
       /\ edges' = edges \cup {e}
  /\ UNCHANGED <<other, path, loop, done>>

Finish ==
  /\ Mode \in {"grow", "dag"} /\ ~done
  /\ Cardinality(edges) = MaxEdges \/ ~ENABLED (Grow \/ GrowAcyclic)
  /\ done' = TRUE
  /\ UNCHANGED <<edges, other, path, loop>>

Next == Walk \/ Grow \/ GrowAcyclic \/ Finish

-----------------------------------------------------------------------------
(* The walk never reports loops that don't exist: *)
Sound == loop => HasLoop(edges)

(* Without loops no path is longer than the number of resources, so reading terminates: *)
Bounded == Len(path) <= Len(Nodes)

(* If there is a loop some walk finds it (checked as: a walk that can't continue and has not found
   a loop has not visited any resource that is part of a loop reachable only through it): *)
Complete ==
  (Mode = "walk" /\ ~loop /\ path = <<Root>> /\ HasLoop(edges)) =>
    \E e \in edges : e[1] = Root

Resources(es) ==
  [i \in 1..Len(Nodes) |->
     LET ts == {e[2] : e \in {x \in es : x[1] = i}}
     IN  [n |-> Nodes[i], to |-> {Nodes[t] : t \in ts}]]

(* Versions are independent, so the verdict is the conjunction: *)
Emission ==
  IF Mode = "walk" THEN TRUE
  ELSE (Mode \in {"graphs", "chain", "pairs"} \/ done) =>
    EmitCase([edges |-> Resources(edges), other |-> Resources(other),
              ok |-> ~HasLoop(edges) /\ ~HasLoop(other)])

(* Every reachable loop is found by some walk: a leads-to property would need fairness, so it is
   stated over the reachable walks instead.  SomeWalkFinds computes all the walks of a graph. *)
RECURSIVE WalksFind(_, _)
WalksFind(es, p) ==
  \E e \in es :
    /\ e[1] = p[Len(p)]
    /\ (\E i \in 1..Len(p) : p[i] = e[2]) \/ WalksFind(es, Append(p, e[2]))

WalkAgrees == (path = <<Root>> /\ ~loop) => (WalksFind(edges, <<Root>>) = HasLoop(edges))
=============================================================================
