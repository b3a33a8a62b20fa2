------------------------------ MODULE Annotated -----------------------------
(***************************************************************************)
(* Naming annotations (property M07).  A writer adds annotations, one by   *)
(* one, to the elements of a model.  Some have effect and some don't,      *)
(* because nobody uses that kind of name for that kind of element.  The    *)
(* definitions of Meta and GoApi say which names result; the invariants    *)
(* say which places each kind of annotation can change.                    *)
(***************************************************************************)
EXTENDS GoApi

CONSTANTS
  GivenBase,   \* the model, if it isn't generated
  Annotations  \* how many annotations are added

VARIABLES
  phase,   \* "grow", "annotate" or "end"
  base,    \* the model without annotations
  done,    \* annotations that have been added
  before   \* the model before the last annotation

vars == <<m, steps, phase, base, done, before>>

Slot(k, i, j, p, a) == [k |-> k, i |-> i, j |-> j, p |-> p, a |-> a]

Kinds3 == {"json", "http", "go"}
SlotsOf(k, i, j, p, used) == {Slot(k, i, j, p, a) : a \in used}

(* Annotations that are part of the model: *)
RealSlots(v) ==
  UNION {SlotsOf("type", i, 0, 0, {"go"}) : i \in 1..Len(v.types)}
  \cup UNION {UNION {SlotsOf("value", i, j, 0, {"json", "go"}) : j \in 1..Len(v.types[i].values)} : i \in 1..Len(v.types)}
  \cup UNION {UNION {SlotsOf("attr", i, j, 0, {"json", "go"}) : j \in 1..Len(v.types[i].attrs)} : i \in 1..Len(v.types)}
  \cup UNION {SlotsOf("resource", i, 0, 0, {"go"}) : i \in 1..Len(v.resources)}
  \cup UNION {UNION {SlotsOf("locator", i, j, 0, {"http", "go"}) : j \in 1..Len(v.resources[i].locators)} : i \in 1..Len(v.resources)}
  \cup UNION {UNION {SlotsOf("method", i, j, 0, {"http", "go"}) : j \in 1..Len(v.resources[i].methods)} : i \in 1..Len(v.resources)}
  \cup UNION {UNION {UNION {SlotsOf("param", i, j, p, Kinds3) : p \in 1..Len(v.resources[i].methods[j].params)}
                     : j \in 1..Len(v.resources[i].methods)} : i \in 1..Len(v.resources)}

(* Annotations that nobody uses: *)
DecoySlots(v) ==
  UNION {SlotsOf("type", i, 0, 0, {"json", "http"}) : i \in 1..Len(v.types)}
  \cup UNION {UNION {SlotsOf("value", i, j, 0, {"http"}) : j \in 1..Len(v.types[i].values)} : i \in 1..Len(v.types)}
  \cup UNION {UNION {SlotsOf("attr", i, j, 0, {"http"}) : j \in 1..Len(v.types[i].attrs)} : i \in 1..Len(v.types)}
  \cup UNION {SlotsOf("resource", i, 0, 0, {"json", "http"}) : i \in 1..Len(v.resources)}
  \cup UNION {UNION {SlotsOf("locator", i, j, 0, {"json"}) : j \in 1..Len(v.resources[i].locators)} : i \in 1..Len(v.resources)}
  \cup UNION {UNION {SlotsOf("method", i, j, 0, {"json"}) : j \in 1..Len(v.resources[i].methods)} : i \in 1..Len(v.resources)}
  \cup UNION {SlotsOf("error", i, 0, 0, Kinds3) : i \in 1..Len(v.errors)}

Slots(v) == RealSlots(v) \cup DecoySlots(v)

NewName(a) ==
  CASE a = "json" -> "the-jsonName." \o ToString(Len(done))
    [] a = "http" -> "the_Http-name" \o ToString(Len(done))
    [] a = "go" -> "TheGo_name" \o ToString(Len(done))

Put(x, a, s) == CASE a = "json" -> [x EXCEPT !.json = s] [] a = "http" -> [x EXCEPT !.http = s] [] a = "go" -> [x EXCEPT !.go = s]

Annotated1(v, s, n) ==
  CASE s.k = "type" -> [v EXCEPT !.types[s.i] = Put(@, s.a, n)]
    [] s.k = "value" -> [v EXCEPT !.types[s.i].values[s.j] = Put(@, s.a, n)]
    [] s.k = "attr" -> [v EXCEPT !.types[s.i].attrs[s.j] = Put(@, s.a, n)]
    [] s.k = "resource" -> [v EXCEPT !.resources[s.i] = Put(@, s.a, n)]
    [] s.k = "locator" -> [v EXCEPT !.resources[s.i].locators[s.j] = Put(@, s.a, n)]
    [] s.k = "method" -> [v EXCEPT !.resources[s.i].methods[s.j] = Put(@, s.a, n)]
    [] s.k = "param" -> [v EXCEPT !.resources[s.i].methods[s.j].params[s.p] = Put(@, s.a, n)]

-----------------------------------------------------------------------------
AInit ==
  /\ IF GivenBase = <<>> THEN GenInit ELSE m = GivenBase /\ steps = Len(Plan)
  /\ phase = "grow" /\ base = <<>> /\ done = <<>> /\ before = <<>>

Grow == phase = "grow" /\ GenNext /\ UNCHANGED <<phase, base, done, before>>

Begin == phase = "grow" /\ Generated /\ phase' = "annotate" /\ base' = m /\ before' = m /\ UNCHANGED <<m, steps, done>>

Annotate ==
  /\ phase = "annotate" /\ Len(done) < Annotations
  /\ \E s \in Some(Slots(V) \ {done[i].s : i \in 1..Len(done)}) :
       /\ m' = IF s \in RealSlots(V) THEN [m EXCEPT ![Cur] = Annotated1(@, s, NewName(s.a))] ELSE m
       /\ done' = Append(done, [s |-> s, n |-> NewName(s.a), real |-> s \in RealSlots(V)])
  /\ before' = m
  /\ UNCHANGED <<steps, phase, base>>

EndAnnotate == phase = "annotate" /\ Len(done) = Annotations /\ phase' = "end" /\ UNCHANGED <<m, steps, base, done, before>>

ANext == Grow \/ Begin \/ Annotate \/ EndAnnotate

-----------------------------------------------------------------------------
(* What a change of one annotation can change: *)
EachKindHasItsPlaces ==
  (phase = "annotate" /\ done # <<>>) =>
    LET d == done[Len(done)]
        u == before[Cur]
    IN
    /\ ~d.real => V = u
    /\ d.s.a = "go" => Operations(V) = Operations(u) /\ Schemas(V) = Schemas(u) /\ UrlPaths(V) = UrlPaths(u)
    /\ d.s.a # "go" => PublicNames(V) = PublicNames(u)
    /\ d.s.a = "http" => Schemas(V) = Schemas(u)
    /\ d.s.a = "json" => {o.path : o \in Operations(V)} = {o.path : o \in Operations(u)} /\ UrlPaths(V) = UrlPaths(u)
    /\ d.s.k \in {"type", "attr", "value"} => Operations(V) = Operations(u)
    /\ d.s.k \in {"resource", "locator", "method", "param"} => Schemas(V) = Schemas(u)

(* Annotations rename, they don't add or remove: *)
NothingIsLost ==
  phase = "end" =>
    LET u == base[Cur] IN
    /\ Cardinality(Operations(V)) = Cardinality(Operations(u))
    /\ Cardinality(Schemas(V)) = Cardinality(Schemas(u))
    /\ Cardinality(UrlPaths(V)) = Cardinality(UrlPaths(u))
    /\ Clean(u) => Clean(V) /\ Cardinality(PublicNames(V)) = Cardinality(PublicNames(u))

Emission ==
  (phase = "end" /\ Clean(V)) =>
    EmitCase([model |-> m, done |-> done,
              names |-> <<SetToSeq(PublicNames(V))>>,
              replaced |-> <<SetToSeq(Replaced(V))>>,
              ops |-> <<SetToSeq(Operations(V))>>,
              schemas |-> <<SetToSeq(Schemas(V))>>,
              urls |-> SetToSeq(UrlPaths(V))])
=============================================================================
