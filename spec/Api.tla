--------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* What the OpenAPI specification and the tree of paths of a model contain *)
(* (properties H03, H04, H05).  When the model is complete a walker goes   *)
(* through the tree of resources, as the generators do, and what it finds  *)
(* has to be what the definitions in Meta say.                             *)
(***************************************************************************)
EXTENDS ModelGen

VARIABLES
  phase,  \* "grow", "walk" or "end"
  todo,   \* paths that the walker has to visit
  found,  \* operations that the walker found
  urls    \* paths that the walker found

vars == <<m, steps, phase, todo, found, urls>>

Init == GenInit /\ phase = "grow" /\ todo = {} /\ found = {} /\ urls = {}

Grow == phase = "grow" /\ GenNext /\ UNCHANGED <<phase, todo, found, urls>>

StartWalk ==
  /\ phase = "grow" /\ Generated
  /\ phase' = "walk"
  /\ todo' = {<<i, <<>>>> : i \in 1..Len(m)}
  /\ UNCHANGED <<m, steps, found, urls>>

(* The walker takes any path, finds the operations of its target, and continues with its locators: *)
Walk ==
  /\ phase = "walk" /\ todo # {}
  /\ \E x \in Some(todo) :
       LET v == m[x[1]]
           p == x[2]
           r == v.resources[Target(p)]
       IN  /\ todo' = (todo \ {x}) \cup {<<x[1], Append(p, r.locators[i])>> : i \in 1..Len(r.locators)}
           /\ found' = found \cup {<<x[1], Operation(v, p, r.methods[i])>> : i \in 1..Len(r.methods)}
           /\ urls' = urls \cup {UrlPath(v, p)} \cup {Append(UrlPath(v, p), MethodSegment(a)) : a \in Actions(v, Target(p))}
  /\ UNCHANGED <<m, steps, phase>>

EndWalk == phase = "walk" /\ todo = {} /\ phase' = "end" /\ UNCHANGED <<m, steps, todo, found, urls>>

Next == Grow \/ StartWalk \/ Walk \/ EndWalk

-----------------------------------------------------------------------------
End == phase = "end"

(* H03: the walker finds all the operations except the metadata, and only them: *)
WalkFindsOperations ==
  End => \A i \in 1..Len(m) : Operations(m[i]) \ {Metadata(m[i])} = {x[2] : x \in {y \in found : y[1] = i}} \ {Metadata(m[i])}

(* H03: there are no two operations with the same path and verb: *)
OperationsAreDistinct ==
  End => \A i \in 1..Len(m) : \A a, b \in Operations(m[i]) : (a.path = b.path /\ a.verb = b.verb) => a = b

(* H05: *)
WalkFindsUrls == End => urls = UNION {UrlPaths(m[i]) : i \in 1..Len(m)}

(* H05: every prefix of a path after the version is also a path: *)
PrefixClosed == End => \A u \in urls : Len(u) > 3 => SubSeq(u, 1, Len(u) - 1) \in urls

(* H04: every reference is to an schema that exists, and names aren't repeated: *)
RECURSIVE RefsOf(_)
RefsOf(s) ==
  CASE s.k = "ref" -> {s.to}
    [] s.k \in {"array", "map"} -> RefsOf(s.of)
    [] s.k = "object" -> UNION {RefsOf(s.props[i].s) : i \in 1..Len(s.props)}
    [] OTHER -> {}

SchemasAreClosed ==
  End => \A i \in 1..Len(m) :
    LET names == {s.n : s \in Schemas(m[i])} \cup {"Metadata"} IN
    /\ \A s \in Schemas(m[i]) : \A p \in s.props : RefsOf(p.s) \subseteq names
    /\ \A o \in Operations(m[i]) : RefsOf(o.body) \cup RefsOf(o.result) \subseteq names

FieldsAreDistinct ==
  End => \A i \in 1..Len(m) : \A s \in Schemas(m[i]) : \A a, b \in s.props : a.n = b.n => a = b

Emission ==
  End => EmitCase([model |-> m,
                   ops |-> [i \in 1..Len(m) |-> SetToSeq(Operations(m[i]))],
                   schemas |-> [i \in 1..Len(m) |-> SetToSeq(Schemas(m[i]))],
                   urls |-> SetToSeq(urls)])
=============================================================================
