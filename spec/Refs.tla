-------------------------------- MODULE Refs --------------------------------
(***************************************************************************)
(* Versions whose classes reference classes of other versions.  The state  *)
(* is the set of declarations of each version; an importer works on a      *)
(* queue of types that have to be brought to the version.  Property M09:   *)
(* what the importer brings is exactly what the definition says, whatever  *)
(* the order.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Emit

CONSTANTS
  Versions,   \* sequence of versions; references go to any version
  Classes,    \* names of classes
  Structs,    \* names of structs, that can't be referenced, only imported
  Enums,      \* names of enums, that don't have attributes
  EdgeKinds,  \* kinds of attributes: "plain", "list", "map", "link", "linklist"
  Plan,       \* what each step of the growth adds: "decl", "attr", "ref" or "bad"
  AllowCircular

VARIABLES
  defs,  \* defs[v][n]: how type n is declared in version v
  bad,   \* the wrong reference of the model, if any
  steps, done,
  queue, have \* the importer: types to bring to the version, and types already brought

vars == <<defs, bad, steps, done, queue, have>>

Names == Classes \cup Structs \cup Enums

V == 1..Len(Versions)
None == [k |-> "none"]
Def(attrs) == [k |-> "def", attrs |-> attrs]
Ref(v) == [k |-> "ref", to |-> v]

IsLink(e) == e[1] \in {"link", "linklist"}

-----------------------------------------------------------------------------
(* Definition *)

Explicit(v) == {n \in Names : defs[v][n].k = "ref"}
Local(v) == {n \in Names : defs[v][n].k = "def"}
Declared(v) == Explicit(v) \cup Local(v)
Sources(v) == {defs[v][n].to : n \in Explicit(v)}

RECURSIVE Reached(_, _)
Reached(S, seen) ==
  LET T == UNION {Sources(v) : v \in S} IN IF T \subseteq seen THEN seen ELSE Reached(T, seen \cup T)

Circular == \E v \in V : v \in Reached({v}, {})

(* The types of a version, including those that are brought from the versions that it references.  The attributes are
   triples with the kind, the name of the target and the version that it belongs to. *)
RECURSIVE TypesOf(_)
RECURSIVE AttrsOf(_, _)
RECURSIVE Closure(_, _)

(* Types of version w that are needed when the types S are: *)
Closure(w, S) ==
  LET T == S \cup {e[2] : e \in {x \in UNION {AttrsOf(w, n) : n \in S} : ~IsLink(x)}}
  IN  IF T = S THEN S ELSE Closure(w, T)

ExplicitFrom(v, w) == {n \in Explicit(v) : defs[v][n].to = w}
Brought(v, w) == Closure(w, ExplicitFrom(v, w))
TypesOf(v) == Declared(v) \cup UNION {Brought(v, w) : w \in Sources(v)}
(* Where a type that isn't local comes from: *)
Source(v, n) == CHOOSE w \in Sources(v) : n \in Brought(v, w)

AttrsOf(v, n) ==
  IF n \in Local(v) THEN {<<e[1], e[2], v>> : e \in defs[v][n].attrs}
  ELSE {<<e[1], e[2], IF ~IsLink(e) \/ e[2] \in Explicit(v) THEN v ELSE e[3]>> : e \in AttrsOf(Source(v, n), n)}

(* What is considered: types exist where they are referenced, and when a version references several others what they bring
   is different, and links don't depend on types that have the same name in several of them. *)
Sensible ==
  ~Circular =>
    /\ \A v \in V : \A n \in Explicit(v) : n \in TypesOf(defs[v][n].to)
    /\ \A v \in V : Cardinality(Sources(v)) > 1 =>
         \A w \in Sources(v) :
           /\ \A x \in Sources(v) \ {w} : Brought(v, w) \cap Brought(v, x) = {}
           /\ \A n \in Brought(v, w) : \A e \in AttrsOf(w, n) : (IsLink(e) /\ e[2] \in Explicit(v)) => (defs[v][e[2]].to = w /\ e[3] = w)
    /\ \A v \in V : \A n \in Local(v) : \A e \in defs[v][n].attrs : e[2] \in TypesOf(v)

(* What is brought to a version conflicts with what is declared there: *)
Conflict == \E v \in V : \E w \in Sources(v) : Brought(v, w) \cap Local(v) # {}

-----------------------------------------------------------------------------
Init ==
  /\ defs = [v \in V |-> [n \in Names |-> None]]
  /\ bad = [k |-> "no"]
  /\ steps = 0 /\ done = FALSE
  /\ queue = {} /\ have = {}

Declare(v, n) ==
  /\ defs[v][n].k = "none"
  /\ defs' = [defs EXCEPT ![v][n] = Def({})]
  /\ UNCHANGED bad

AddAttr(v, n, k, t) ==
  /\ n \in Local(v) \ Enums /\ (t \in Declared(v) \/ (~Circular /\ t \in TypesOf(v)))
  /\ k \in {"link", "linklist"} => n \in Classes /\ t \in Classes
  /\ <<k, t>> \notin defs[v][n].attrs
  /\ defs' = [defs EXCEPT ![v][n].attrs = @ \cup {<<k, t>>}]
  /\ UNCHANGED bad

AddRef(v, n, w) ==
  /\ n \in Classes
  /\ defs[v][n].k = "none"
  /\ v # w \/ AllowCircular
  /\ n \in Declared(w) \/ (AllowCircular /\ v = w) \/ (~Circular /\ n \in TypesOf(w))
  /\ defs' = [defs EXCEPT ![v][n] = Ref(w)]
  /\ UNCHANGED bad

(* Wrong references: the components of the right one are the service, the version and the type, perhaps with an empty one
   before them.  The wrong ones differ in one component, that can also be one that doesn't exist. *)
Right == {<<"service", "version", "type">>, <<"", "service", "version", "type">>}
Parts == {"", "service", "version", "type", "missing"}
Wrong ==
  (UNION {{InsertAt(g, i, c) : i \in 1..(Len(g) + 1), c \in Parts} : g \in Right}
   \cup UNION {{RemoveAt(g, i) : i \in 1..Len(g)} : g \in Right}
   \cup UNION {{ReplaceAt(g, i, c) : i \in 1..Len(g), c \in Parts} : g \in Right}
   \cup {<<"", "">>, <<"missing">>, <<"", "missing">>}) \ Right

(* The class of the wrong reference isn't declared in any other way: *)
AddBad(v, w, n, s) ==
  /\ bad.k = "no"
  /\ v # w /\ n \in Classes /\ n \in Declared(w) /\ ~Circular /\ n \notin TypesOf(v)
  /\ bad' = [k |-> "bad", v |-> v, w |-> w, n |-> n, path |-> s]
  /\ UNCHANGED defs

Step == Plan[steps + 1]
Reference(v, n, w) == AddRef(v, n, w) /\ (AllowCircular \/ ~Circular')

Grow ==
  /\ ~done /\ steps < Len(Plan)
  /\ \/ Step = "decl" /\ \E v \in V, n \in Names : Declare(v, n)
     \/ Step = "attr" /\ \E v \in V, n \in Names, k \in EdgeKinds, t \in Names : AddAttr(v, n, k, t)
     \/ Step = "ref" /\ \E v, w \in V, n \in Names : Reference(v, n, w)
     \/ Step = "bad" /\ \E v, w \in V, n \in Names, s \in Wrong : AddBad(v, w, n, s)
  /\ Sensible'
  /\ steps' = steps + 1
  /\ UNCHANGED <<done, queue, have>>

(* A step for which there is nothing to add is skipped: *)
Skip ==
  /\ ~done /\ steps < Len(Plan)
  /\ \/ Step = "attr" /\ \A v \in V, n \in Names, k \in EdgeKinds, t \in Names : ~ENABLED AddAttr(v, n, k, t)
     \/ Step = "ref" /\ \A v, w \in V, n \in Names : ~ENABLED AddRef(v, n, w)
  /\ steps' = steps + 1
  /\ UNCHANGED <<defs, bad, done, queue, have>>

(* The references of the last version that has them are imported step by step: *)
Importing == {v \in V : Sources(v) # {}}
Subject == CHOOSE v \in Importing : \A w \in Importing : v <= w

Finish ==
  /\ ~done /\ steps = Len(Plan)
  /\ done' = TRUE
  /\ IF Importing = {} \/ Circular \/ Conflict THEN UNCHANGED <<queue, have>>
     ELSE queue' = {<<defs[Subject][n].to, n>> : n \in Explicit(Subject)} /\ have' = {}
  /\ UNCHANGED <<defs, bad, steps>>

Import ==
  /\ done /\ queue # {}
  /\ \E x \in queue :
       /\ have' = have \cup {x}
       /\ queue' = (queue \cup {<<x[1], e[2]>> : e \in {y \in AttrsOf(x[1], x[2]) : ~IsLink(y)}}) \ have'
  /\ UNCHANGED <<defs, bad, steps, done>>

Next == Grow \/ Skip \/ Finish \/ Import

-----------------------------------------------------------------------------
(* Whatever the order, the importer brings what the definition says: *)
Confluent ==
  (done /\ ~Circular /\ ~Conflict /\ Importing # {} /\ queue = {}) =>
    have = UNION {{<<w, n>> : n \in Brought(Subject, w)} : w \in Sources(Subject)}

(* Attributes of references are exactly the attributes of what they reference: *)
SameAttrs ==
  (done /\ ~Circular /\ ~Conflict) => \A v \in V : \A n \in Explicit(v) :
    {<<e[1], e[2]>> : e \in AttrsOf(v, n)} = {<<e[1], e[2]>> : e \in AttrsOf(defs[v][n].to, n)}

(* Everything that isn't a link is in the same version: *)
Closed == (done /\ ~Circular /\ ~Conflict) => \A v \in V : \A n \in TypesOf(v) : \A e \in AttrsOf(v, n) : ~IsLink(e) => e[3] = v /\ e[2] \in TypesOf(v)

(* References are to versions of the same input, so models that have several inputs can't have them: *)
Accepted(inputs) == ~Circular /\ ~Conflict /\ bad.k = "no" /\ (inputs > 1 => Importing = {})

Interesting == Importing # {} \/ bad.k # "no"

Emission ==
  (done /\ have = {} /\ Interesting) =>
    EmitCase([decls |-> [v \in V |-> [version |-> Versions[v],
                types |-> SetToSeq({[n |-> n, k |-> defs[v][n].k,
                            to |-> IF n \in Explicit(v) THEN Versions[defs[v][n].to] ELSE "",
                            attrs |-> IF n \in Local(v) THEN SetToSeq({[k |-> e[1], t |-> e[2]] : e \in defs[v][n].attrs}) ELSE <<>>]
                            : n \in Declared(v)})]],
              bad |-> bad,
              ok |-> Accepted(1), several |-> Accepted(2),
              types |-> IF Circular \/ Conflict THEN <<>> ELSE
                [v \in V |-> SetToSeq({[n |-> n, src |-> IF n \in Local(v) THEN "" ELSE Versions[Source(v, n)], attrs |-> SetToSeq({[k |-> e[1], t |-> e[2], v |-> Versions[e[3]]] : e \in AttrsOf(v, n)})]
                             : n \in TypesOf(v)})]])
=============================================================================
