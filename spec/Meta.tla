-------------------------------- MODULE Meta --------------------------------
(***************************************************************************)
(* The metamodel: what a model is, and what it means: names, HTTP binding, *)
(* paths, operations and schemas.  A model is a sequence of versions.      *)
(*                                                                         *)
(*   version:  [svc, ver, types, resources, errors]                        *)
(*   type:     [kind, n, go, values, attrs]                                *)
(*   value:    [n, json, go]                                               *)
(*   attr:     [n, form, t, link, json, go]                                *)
(*   resource: [n, go, methods, locators]; the first one is the root       *)
(*   method:   [kind, n, params, http, go]; the kind is "Action" if the    *)
(*             name isn't one of the known ones                            *)
(*   param:    [n, dir, form, t, dflt, json, http, go]                     *)
(*   locator:  [n, target, var, http, go]                                  *)
(*   error:    [n, code]                                                   *)
(*                                                                         *)
(* Names are sequences of words, and words are records with the lower case *)
(* and the capitalised form.  The target of a type reference is a record   *)
(* with the name of a basic type, or the index of a declared type.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

W(l, c) == [l |-> l, c |-> c]

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

Snake(n) == Join([i \in 1..Len(n) |-> n[i].l], "_")
Camel(n) == Join([i \in 1..Len(n) |-> n[i].c], "")

Or(a, b) == IF a # "" THEN a ELSE b

Basic(b) == [b |-> b, i |-> 0]
Declared(i) == [b |-> "", i |-> i]

IsBasic(t) == t.i = 0
KindOf(v, t) == IF IsBasic(t) THEN "basic" ELSE v.types[t.i].kind
IsScalar(v, x) == x.form = "plain" /\ KindOf(v, x.t) \in {"basic", "enum"}

-----------------------------------------------------------------------------
(* Names *)
TypeName(v, t) == IF IsBasic(t) THEN t.b ELSE Camel(v.types[t.i].n)
FieldName(a) == Or(a.json, Snake(a.n))
ValueName(x) == Or(x.json, Snake(x.n))
QueryName(p) == Or(p.http, Or(p.json, Snake(p.n)))
BodyName(p) == Or(p.json, Snake(p.n))
LocatorSegment(l) == Or(l.http, Snake(l.n))
MethodSegment(m) == IF m.kind = "Action" THEN Or(m.http, Snake(m.n)) ELSE ""
GoName(x) == Or(x.go, Camel(x.n))

-----------------------------------------------------------------------------
(* HTTP binding *)
Verb(m) ==
  CASE m.kind \in {"Get", "List"} -> "GET"
    [] m.kind \in {"Update", "AsyncUpdate"} -> "PATCH"
    [] m.kind \in {"Delete", "AsyncDelete"} -> "DELETE"
    [] OTHER -> "POST"

Status(m) ==
  CASE m.kind \in {"Add", "Post"} -> "201"
    [] m.kind \in {"AsyncUpdate", "AsyncDelete"} -> "202"
    [] m.kind = "Delete" -> "204"
    [] OTHER -> "200"

In(p) == p.dir \in {"in", "in out"}
Out(p) == p.dir \in {"", "out", "in out"}

InQuery(v, m, p) == In(p) /\ m.kind # "Action" /\ IsScalar(v, p)
InBody(v, m, p) == In(p) /\ ~InQuery(v, m, p)

Inputs(v, m) == SelectSeq(m.params, In)
QueryParams(v, m) == SelectSeq(m.params, LAMBDA p : InQuery(v, m, p))
BodyParams(v, m) == SelectSeq(m.params, LAMBDA p : InBody(v, m, p))
Outputs(v, m) == SelectSeq(m.params, Out)

-----------------------------------------------------------------------------
(* Paths: sequences of locators that start at the root. *)
Root(v) == v.resources[1]

RECURSIVE PathsFrom(_, _)
PathsFrom(v, r) ==
  {<<>>} \cup UNION {
    LET l == v.resources[r].locators[i]
    IN  {<<l>> \o p : p \in PathsFrom(v, l.target)}
    : i \in 1..Len(v.resources[r].locators)}

Paths(v) == PathsFrom(v, 1)

Target(p) == IF p = <<>> THEN 1 ELSE p[Len(p)].target

BasePath(v) == "/api/" \o v.svc \o "/" \o v.ver

(* In the OpenAPI specification the segment of a variable locator is a placeholder: *)
Placeholder(l) == LocatorSegment(l) \o "_id"
Template(v, p) ==
  Join(<<BasePath(v)>> \o [i \in 1..Len(p) |-> IF p[i].var THEN "{" \o Placeholder(p[i]) \o "}" ELSE LocatorSegment(p[i])], "/")

PathParams(p) == LET q == SelectSeq(p, LAMBDA l : l.var) IN [i \in 1..Len(q) |-> Placeholder(q[i])]

-----------------------------------------------------------------------------
(* Schemas *)
BasicSchema(b) ==
  CASE b = "Boolean"   -> [k |-> "scalar", type |-> "boolean", format |-> ""]
    [] b = "Integer"   -> [k |-> "scalar", type |-> "integer", format |-> "int32"]
    [] b = "Long"      -> [k |-> "scalar", type |-> "integer", format |-> "int64"]
    [] b = "Float"     -> [k |-> "scalar", type |-> "number", format |-> "float"]
    [] b = "String"    -> [k |-> "scalar", type |-> "string", format |-> ""]
    [] b = "Date"      -> [k |-> "scalar", type |-> "string", format |-> "date-time"]
    [] b = "Interface" -> [k |-> "scalar", type |-> "object", format |-> ""]

TargetSchema(v, t) == IF IsBasic(t) THEN BasicSchema(t.b) ELSE [k |-> "ref", to |-> Camel(v.types[t.i].n)]

SchemaOf(v, x) ==
  CASE x.form = "plain" -> TargetSchema(v, x.t)
    [] x.form = "list"  -> [k |-> "array", of |-> TargetSchema(v, x.t)]
    [] x.form = "map"   -> [k |-> "map", of |-> TargetSchema(v, x.t)]

Known == {"Add", "Get", "Update", "AsyncUpdate", "Delete", "AsyncDelete", "List", "Search", "Post"}

(* Schema of a message that has the given parameters.  For some kinds of methods one parameter is
   sent alone, otherwise it is inside an object: *)
MessageSchema(v, m, ps, alone) ==
  IF ps = <<>> THEN [k |-> "none"]
  ELSE IF Len(ps) > 1 \/ m.kind \notin alone
  THEN [k |-> "object", props |-> [i \in 1..Len(ps) |-> [n |-> BodyName(ps[i]), s |-> SchemaOf(v, ps[i])]]]
  ELSE SchemaOf(v, ps[1])

Operation(v, p, m) ==
  [path |-> IF MethodSegment(m) = "" THEN Template(v, p) ELSE Template(v, p) \o "/" \o MethodSegment(m),
   verb |-> Verb(m),
   status |-> Status(m),
   ids |-> PathParams(p),
   query |-> LET q == QueryParams(v, m) IN [i \in 1..Len(q) |-> [n |-> QueryName(q[i]), s |-> SchemaOf(v, q[i])]],
   body |-> MessageSchema(v, m, BodyParams(v, m), Known),
   (* Lists are inside an object even if there is nothing else: *)
   result |-> MessageSchema(v, m, Outputs(v, m), Known \ {"List", "Search"})]

Metadata(v) ==
  [path |-> BasePath(v), verb |-> "GET", status |-> "200", ids |-> <<>>, query |-> <<>>,
   body |-> [k |-> "none"], result |-> [k |-> "ref", to |-> "Metadata"]]

MethodsOf(v, r) == {v.resources[r].methods[i] : i \in 1..Len(v.resources[r].methods)}

Operations(v) ==
  UNION {{Operation(v, p, m) : m \in MethodsOf(v, Target(p))} : p \in Paths(v)}
  \cup (IF \E m \in MethodsOf(v, 1) : Verb(m) = "GET" THEN {} ELSE {Metadata(v)})

Schemas(v) ==
  {LET t == v.types[i] IN
     [n |-> Camel(t.n), kind |-> t.kind,
      values |-> {ValueName(t.values[k]) : k \in 1..Len(t.values)},
      props |-> {[n |-> FieldName(t.attrs[k]), s |-> SchemaOf(v, t.attrs[k])] : k \in 1..Len(t.attrs)}]
   : i \in 1..Len(v.types)}

-----------------------------------------------------------------------------
(* URL paths that the client can use, where identifiers are replaced by "-": *)
UrlPath(v, p) ==
  <<"api", v.svc, v.ver>> \o [i \in 1..Len(p) |-> IF p[i].var THEN "-" ELSE LocatorSegment(p[i])]

Actions(v, r) == {m \in MethodsOf(v, r) : m.kind = "Action"}

UrlPaths(v) ==
  {UrlPath(v, p) : p \in Paths(v)} \cup
  UNION {{Append(UrlPath(v, p), MethodSegment(m)) : m \in Actions(v, Target(p))} : p \in Paths(v)}
=============================================================================
