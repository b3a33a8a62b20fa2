-------------------------------- MODULE GoApi -------------------------------
(***************************************************************************)
(* The public Go names of a version.                                       *)
(***************************************************************************)
EXTENDS ModelGen

(* Elements of a version *)
Elem(k, i, j) == [k |-> k, i |-> i, j |-> j]

Elements(v) ==
  {Elem("type", i, 0) : i \in 1..Len(v.types)}
  \cup UNION {{Elem("attr", i, j) : j \in 1..Len(v.types[i].attrs)} : i \in 1..Len(v.types)}
  \cup UNION {{Elem("value", i, j) : j \in 1..Len(v.types[i].values)} : i \in 1..Len(v.types)}
  \cup {Elem("resource", i, 0) : i \in 1..Len(v.resources)}
  \cup UNION {{Elem("locator", i, j) : j \in 1..Len(v.resources[i].locators)} : i \in 1..Len(v.resources)}
  \cup UNION {{Elem("method", i, j) : j \in 1..Len(v.resources[i].methods)} : i \in 1..Len(v.resources)}
  \cup {Elem("error", i, 0) : i \in 1..Len(v.errors)}

(* Names of the Go code.  The scope is empty for the names of the package, and the name of the Go
   type for methods. *)
Name(s, n) == [s |-> s, n |-> n]

ClientName(v, r) == IF r = 1 THEN "Client" ELSE GoName(v.resources[r]) \o "Client"
(* Names of the requests and responses of a method.  The root resource doesn't have a prefix: *)
CallName(v, r, x) == (IF r = 1 THEN "" ELSE GoName(v.resources[r])) \o GoName(x)

Getter(n) == {n, "Get" \o n}

(* Parameters that have the name of a fixed member of the request or of the response: *)
Avoid(n, fixed) == IF n \in fixed THEN n \o "_" ELSE n
SetterName(p) == Avoid(GoName(p), {"Header", "Impersonate", "Parameter", "Send", "SendContext"})
GetterName(p) == Avoid(GoName(p), {"Error", "Header", "Status"})

ParamNames(v, r, x) ==
  UNION {(IF In(x.params[i]) THEN {Name(CallName(v, r, x) \o "Request", SetterName(x.params[i]))} ELSE {})
         \cup (IF Out(x.params[i]) THEN {Name(CallName(v, r, x) \o "Response", g) : g \in Getter(GetterName(x.params[i]))} ELSE {})
         : i \in 1..Len(x.params)}

TypeNames1(t) ==
  LET g == GoName(t) IN
  IF t.kind = "enum" THEN {Name("", g)}
  ELSE {Name("", n) : n \in {g, g \o "Builder", g \o "List", g \o "ListBuilder", "New" \o g, "New" \o g \o "List",
                             "Marshal" \o g, "Unmarshal" \o g}}
       \cup {Name(g, "Empty"), Name(g \o "Builder", "Build"), Name(g \o "Builder", "Copy"), Name(g \o "Builder", "Empty")}
       \cup (IF t.kind = "class"
             THEN {Name("", n) : n \in {g \o "Kind", g \o "LinkKind", g \o "NilKind"}}
                  \cup {Name(g, n) : n \in {"Kind", "Link", "ID", "GetID", "HREF", "GetHREF"}}
                  \cup {Name(g \o "Builder", n) : n \in {"Link", "ID", "HREF"}}
             ELSE {})

NamesOf(v, e) ==
  CASE e.k = "type" -> TypeNames1(v.types[e.i])
    [] e.k = "attr" -> LET t == GoName(v.types[e.i])
                           a == GoName(v.types[e.i].attrs[e.j])
                       IN  {Name(t, n) : n \in Getter(a)} \cup {Name(t \o "Builder", a)}
    [] e.k = "value" -> {Name("", GoName(v.types[e.i]) \o GoName(v.types[e.i].values[e.j]))}
    [] e.k = "resource" -> {Name("", ClientName(v, e.i)), Name("", "New" \o ClientName(v, e.i))}
    [] e.k = "locator" -> {Name(ClientName(v, e.i), GoName(v.resources[e.i].locators[e.j]))}
    [] e.k = "method" -> LET x == v.resources[e.i].methods[e.j]
                             c == CallName(v, e.i, x)
                         IN  {Name(ClientName(v, e.i), GoName(x)), Name("", c \o "Request"), Name("", c \o "Response"),
                              Name(c \o "Request", "Send"), Name(c \o "Request", "SendContext"), Name(c \o "Request", "Header"),
                              Name(c \o "Request", "Parameter"), Name(c \o "Request", "Impersonate"),
                              Name(c \o "Response", "Status"), Name(c \o "Response", "Header"), Name(c \o "Response", "Error")}
                             \cup ParamNames(v, e.i, x)
    [] e.k = "error" -> {Name("", Camel(v.errors[e.i].n) \o "Error")}

PublicNames(v) == UNION {NamesOf(v, e) : e \in Elements(v)}

(* The same version without Go annotations: *)
Plain(v) ==
  [v EXCEPT !.types = [i \in 1..Len(@) |-> [@[i] EXCEPT
                         !.go = "",
                         !.attrs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.go = ""]],
                         !.values = [j \in 1..Len(@) |-> [@[j] EXCEPT !.go = ""]]]],
            !.resources = [i \in 1..Len(@) |-> [@[i] EXCEPT !.go = "",
                         !.locators = [j \in 1..Len(@) |-> [@[j] EXCEPT !.go = ""]],
                         !.methods = [j \in 1..Len(@) |-> [@[j] EXCEPT
                           !.go = "", !.params = [k \in 1..Len(@) |-> [@[k] EXCEPT !.go = ""]]]]]]]

(* Names that annotations replace: *)
Replaced(v) == PublicNames(Plain(v)) \ PublicNames(v)

(* Code with repeated names can't compile.  The names of the elements of a model can be such that
   this happens, for example an enum `Foo` with the value `Bar` and a class `FooBar`: *)
Clean(v) ==
  LET all == UNION {{[s |-> n.s, n |-> n.n, e |-> e] : n \in NamesOf(v, e)} : e \in Elements(v)}
  IN  Cardinality(all) = Cardinality({[s |-> x.s, n |-> x.n] : x \in all})
=============================================================================
