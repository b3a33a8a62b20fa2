----------------------------- MODULE Signatures -----------------------------
(***************************************************************************)
(* Method signatures.  A state is a method of some kind with a list of     *)
(* parameters; a behaviour starts with an idiomatic signature and changes  *)
(* it step by step: it renames, retypes, redirects, adds or removes        *)
(* parameters, or changes default values.  Accepted is the property M02.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Emit

CONSTANTS
  MaxSteps,    \* how many changes
  Simulating   \* whether only the last state of a behaviour is emitted

VARIABLES kind, params, steps, done

vars == <<kind, params, steps, done>>

Kinds == {"Add", "AsyncDelete", "AsyncUpdate", "Delete", "Get", "List", "Post", "Search", "Update",
          "Check", "AddUser", "GetAll"}

Names == {"Body", "Items", "Page", "Size", "Total", "Foo", "Bar", "body"}

Scalars == {"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface", "MyEnum"}
Structs == {"MyClass", "MyStruct"}
Lists   == {"[]MyClass", "[]String"}
Maps    == {"[String]String", "[String]MyClass"}
Types   == Scalars \cup Structs \cup Lists \cup Maps

Dirs     == {"", "in", "out", "in out"}
Defaults == {"", "1", "100", "2", "true", "\"x\""}

P(n, t, d, v) == [n |-> n, t |-> t, d |-> d, v |-> v]

-----------------------------------------------------------------------------
(* The property. *)
In(p)  == p.d \in {"in", "in out"}
Out(p) == p.d \in {"", "out", "in out"}
Scalar(p) == p.t \in Scalars
Struct(p) == p.t \in Structs
List(p)   == p.t \in Lists

(* Names are compared as words, so lower case 'body' is the same name: *)
NameOf(p) == IF p.n = "body" THEN "Body" ELSE p.n

Count(ps, Op(_)) == Cardinality({i \in 1..Len(ps) : Op(ps[i])})

All(ps, Op(_)) == \A i \in 1..Len(ps) : Op(ps[i])

Unique(ps) == \A i, j \in 1..Len(ps) : i # j => NameOf(ps[i]) # NameOf(ps[j])

DefaultOk(p) ==
  CASE p.v = "" -> TRUE
    [] p.v \in {"1", "100", "2"} -> p.t = "Integer"
    [] p.v = "true" -> p.t = "Boolean"
    [] OTHER -> p.t = "String"

Paging(ps) ==
  All(ps, LAMBDA p :
    /\ NameOf(p) = "Page"  => p.t = "Integer" /\ In(p) /\ Out(p) /\ p.v = "1"
    /\ NameOf(p) = "Size"  => p.t = "Integer" /\ In(p) /\ Out(p) /\ p.v = "100"
    /\ NameOf(p) = "Total" => p.t = "Integer" /\ ~In(p) /\ Out(p))

(* The given parameters are exactly one, with that name and direction: *)
Only(ps, Op(_), n, i, o) ==
  /\ Count(ps, Op) = 1
  /\ All(ps, LAMBDA p : Op(p) => NameOf(p) = n /\ In(p) = i /\ Out(p) = o)

ScalarsAreInput(ps) == All(ps, LAMBDA p : Scalar(p) => In(p) /\ ~Out(p))

RulesOf(k, ps) ==
  CASE k = "Add" ->
         /\ All(ps, LAMBDA p : Scalar(p) \/ Struct(p))
         /\ Only(ps, Struct, "Body", TRUE, TRUE)
    [] k \in {"Delete", "AsyncDelete"} ->
         All(ps, LAMBDA p : Scalar(p) /\ In(p) /\ ~Out(p))
    [] k = "Get" ->
         /\ All(ps, LAMBDA p : Scalar(p) \/ Struct(p))
         /\ Only(ps, Struct, "Body", FALSE, TRUE)
         /\ ScalarsAreInput(ps)
    [] k = "List" ->
         /\ All(ps, LAMBDA p : Scalar(p) \/ List(p))
         /\ Only(ps, List, "Items", FALSE, TRUE)
         /\ Paging(ps)
    [] k = "Post" ->
         /\ Count(ps, In) <= 1
         /\ Count(ps, Out) = 1
         /\ All(ps, Struct)
    [] k = "Search" ->
         /\ All(ps, LAMBDA p : In(p) => Scalar(p) \/ Struct(p))
         /\ All(ps, LAMBDA p : Out(p) => Scalar(p) \/ List(p))
         /\ Only(ps, List, "Items", FALSE, TRUE)
         /\ Only(ps, LAMBDA p : Struct(p) /\ In(p), "Body", TRUE, FALSE)
         /\ Paging(ps)
    [] k \in {"Update", "AsyncUpdate"} ->
         /\ All(ps, LAMBDA p : Scalar(p) \/ Struct(p) \/ List(p))
         /\ Only(ps, LAMBDA p : Struct(p) \/ List(p), "Body", TRUE, TRUE)
         /\ ScalarsAreInput(ps)
    [] OTHER -> TRUE

Accepted(k, ps) == Unique(ps) /\ All(ps, DefaultOk) /\ RulesOf(k, ps)

-----------------------------------------------------------------------------
Page  == P("Page", "Integer", "in out", "1")
Size  == P("Size", "Integer", "in out", "100")
Total == P("Total", "Integer", "out", "")
Items == P("Items", "[]MyClass", "out", "")
Flag  == P("Foo", "Boolean", "in", "")

Idiomatic(k) ==
  CASE k = "Add" -> {<<P("Body", "MyClass", "in out", "")>>, <<Flag, P("Body", "MyStruct", "in out", "")>>}
    [] k \in {"Delete", "AsyncDelete"} -> {<<>>, <<Flag>>, <<Flag, P("Bar", "String", "in", "\"x\"")>>}
    [] k = "Get" -> {<<P("Body", "MyClass", "out", "")>>, <<P("Body", "MyStruct", "", ""), Flag>>}
    [] k = "List" -> {<<Page, Size, Total, Items>>, <<Items>>,
                      <<Page, Size, P("Foo", "String", "in", ""), Total, Items>>}
    [] k = "Post" -> {<<P("Foo", "MyClass", "in", ""), P("Bar", "MyStruct", "out", "")>>,
                      <<P("Body", "MyClass", "in out", "")>>, <<P("Foo", "MyClass", "out", "")>>}
    [] k = "Search" -> {<<P("Body", "MyClass", "in", ""), Page, Size, Total, Items>>,
                        <<P("Body", "MyStruct", "in", ""), Items>>}
    [] k \in {"Update", "AsyncUpdate"} ->
                       {<<P("Body", "MyClass", "in out", "")>>, <<Flag, P("Body", "[]MyClass", "in out", "")>>}
    [] OTHER -> {<<>>, <<Flag, P("Bar", "MyClass", "out", ""), P("Items", "[String]MyClass", "in", "")>>}

Init ==
  /\ kind \in Kinds
  /\ params \in Idiomatic(kind)
  /\ steps = 0
  /\ done = FALSE

Replace(i, p) == [params EXCEPT ![i] = p]

Extra == {P(n, t, d, "") : n \in {"Body", "Items", "Foo", "Total"},
                           t \in {"Integer", "MyClass", "[]MyClass", "[String]String"}, d \in Dirs}

Change ==
  \/ \E i \in 1..Len(params), n \in Names : params' = Replace(i, [params[i] EXCEPT !.n = n])
  \/ \E i \in 1..Len(params), t \in Types : params' = Replace(i, [params[i] EXCEPT !.t = t])
  \/ \E i \in 1..Len(params), d \in Dirs : params' = Replace(i, [params[i] EXCEPT !.d = d])
  \/ \E i \in 1..Len(params), v \in Defaults : params' = Replace(i, [params[i] EXCEPT !.v = v])
  \/ \E i \in 1..Len(params) : params' = RemoveAt(params, i)
  \/ \E p \in Extra : params' = Append(params, p)

Next ==
  \/ /\ steps < MaxSteps
     /\ Change
     /\ steps' = steps + 1
     /\ UNCHANGED <<kind, done>>
  \/ /\ Simulating /\ ~done /\ steps = MaxSteps
     /\ done' = TRUE
     /\ UNCHANGED <<kind, params, steps>>

(* The idiomatic signatures are all accepted: *)
IdiomsAccepted == steps = 0 => Accepted(kind, params)

Emission ==
  (Simulating => done) => EmitCase([kind |-> kind, params |-> params, ok |-> Accepted(kind, params)])
=============================================================================
