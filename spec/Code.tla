-------------------------------- MODULE Code --------------------------------
(***************************************************************************)
(* The public Go code of a model (properties G01 and M07).  Each version   *)
(* is a package; the definition says what its public names are.  A writer  *)
(* goes through the elements of the version, in any order, and adds names  *)
(* to the package.  Unless two elements need the same name, the code        *)
(* compiles, and annotated names replace the derived ones.                 *)
(***************************************************************************)
EXTENDS GoApi

VARIABLES
  phase,  \* "grow", "write" or "end"
  todo,   \* elements that the writer hasn't processed, as pairs of version and element
  code    \* code[v]: set of names written, as records with the scope, the name and the element

vars == <<m, steps, phase, todo, code>>

-----------------------------------------------------------------------------
Init == GenInit /\ phase = "grow" /\ todo = {} /\ code = <<>>

Grow == phase = "grow" /\ GenNext /\ UNCHANGED <<phase, todo, code>>

StartWriting ==
  /\ phase = "grow" /\ Generated
  /\ phase' = "write"
  /\ todo' = UNION {{<<i, e>> : e \in Elements(m[i])} : i \in 1..Len(m)}
  /\ code' = [i \in 1..Len(m) |-> {}]
  /\ UNCHANGED <<m, steps>>

Write ==
  /\ phase = "write" /\ todo # {}
  /\ \E x \in (IF Random THEN Some(todo) ELSE {CHOOSE y \in todo : TRUE}) :
       /\ todo' = todo \ {x}
       /\ code' = [code EXCEPT ![x[1]] = @ \cup {[s |-> n.s, n |-> n.n, e |-> x[2]] : n \in NamesOf(m[x[1]], x[2])}]
  /\ UNCHANGED <<m, steps, phase>>

EndWriting == phase = "write" /\ todo = {} /\ phase' = "end" /\ UNCHANGED <<m, steps, todo, code>>

Next == Grow \/ StartWriting \/ Write \/ EndWriting

-----------------------------------------------------------------------------
End == phase = "end" /\ \A i \in 1..Len(m) : Clean(m[i])

(* G01: each name is written by one element only: *)
NamesAreDistinct ==
  End => \A i \in 1..Len(m) : Cardinality({[s |-> x.s, n |-> x.n] : x \in code[i]}) = Cardinality(code[i])

(* G01: methods are always of types that exist: *)
ScopesExist ==
  End => \A i \in 1..Len(m) : {x.s : x \in code[i]} \ {""} \subseteq {x.n : x \in {y \in code[i] : y.s = ""}}

(* M07: an annotation replaces names, but doesn't add or remove them: *)
AnnotationsReplace ==
  End => \A i \in 1..Len(m) :
    /\ Cardinality(PublicNames(Plain(m[i]))) = Cardinality(PublicNames(m[i]))
    /\ {[s |-> x.s, n |-> x.n] : x \in code[i]} = PublicNames(m[i])

Emission ==
  End => EmitCase([model |-> m,
                   names |-> [i \in 1..Len(m) |-> SetToSeq(PublicNames(m[i]))],
                   replaced |-> [i \in 1..Len(m) |-> SetToSeq(Replaced(m[i]))]])
=============================================================================
