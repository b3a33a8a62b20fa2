------------------------------ MODULE ModelGen ------------------------------
(***************************************************************************)
(* Growth of models.  Each step adds something to the last version of the  *)
(* model, and the model is always one that the tool has to accept.  The    *)
(* plan says what kind of thing each step adds.  With Random the things    *)
(* are chosen at random, otherwise all the possibilities are explored.     *)
(***************************************************************************)
EXTENDS Meta, Emit

CONSTANTS
  Plan,       \* sequence of kinds of steps
  Random,     \* whether to choose at random
  NamePool,   \* set of names
  SvcPool,    \* set of pairs of names of services and versions
  Forms,      \* forms of the types: subset of {"plain", "list", "map"}
  Basics,     \* names of basic types
  MethodKinds \* kinds of methods

VARIABLES m, steps

Some(S) == IF Random /\ S # {} THEN {RandomElement(S)} ELSE S

Cur == Len(m)
V == m[Cur]

N(l, c) == <<W(l, c)>>
Range1(s) == {s[i] : i \in 1..Len(s)}
NamesIn(s) == {s[i].n : i \in 1..Len(s)}

EmptyVersion(sv) == [svc |-> sv[1], ver |-> sv[2], types |-> <<>>, errors |-> <<>>,
                     resources |-> <<[n |-> <<W("root", "Root")>>, go |-> "", methods |-> <<>>, locators |-> <<>>]>>]

GenInit ==
  /\ \E sv \in Some(SvcPool) : m = <<EmptyVersion(sv)>>
  /\ steps = 0

TypeIdx(kinds) == {i \in 1..Len(V.types) : V.types[i].kind \in kinds}
Names(used) == Some(NamePool \ used)
(* Names of schemas that the OpenAPI specification always has aren't used for types: *)
FixedSchemas == {N("error", "Error"), N("metadata", "Metadata")}
TypeNames == Names(NamesIn(V.types) \cup FixedSchemas)

AddVersion ==
  \E sv \in Some(SvcPool \ {<<m[i].svc, m[i].ver>> : i \in 1..Len(m)}) : m' = Append(m, EmptyVersion(sv))

AddEnum ==
  \E n \in TypeNames :
    m' = [m EXCEPT ![Cur].types = Append(@, [kind |-> "enum", n |-> n, go |-> "", attrs |-> <<>>, values |-> <<>>])]

AddValue ==
  \E i \in Some(TypeIdx({"enum"})) : \E n \in Names(NamesIn(V.types[i].values)) :
    m' = [m EXCEPT ![Cur].types[i].values = Append(@, [n |-> n, json |-> "", go |-> ""])]

AddStruct(kind) ==
  \E n \in TypeNames :
    m' = [m EXCEPT ![Cur].types = Append(@, [kind |-> kind, n |-> n, go |-> "", attrs |-> <<>>, values |-> <<>>])]

AnyTarget == {Basic(b) : b \in Basics} \cup {Declared(i) : i \in 1..Len(V.types)}

AddAttr(targets) ==
  \E i \in Some(TypeIdx({"class", "struct"})) :
  \E n \in Names(NamesIn(V.types[i].attrs)) :
  \E f \in Some(Forms) : \E t \in Some(targets) :
  \E link \in Some(IF V.types[i].kind = "class" /\ KindOf(V, t) = "class" /\ f # "map" THEN {TRUE, FALSE} ELSE {FALSE}) :
    m' = [m EXCEPT ![Cur].types[i].attrs = Append(@, [n |-> n, form |-> f, t |-> t, link |-> link, json |-> "", go |-> ""])]

(* Names of locators and actions are unique in the version, so that the templates of the paths are
   different: *)
SegmentNames ==
  UNION {NamesIn(V.resources[r].locators) \cup NamesIn(V.resources[r].methods) : r \in 1..Len(V.resources)}

Locator(n, r, var) == [n |-> n, target |-> r, var |-> var, http |-> "", go |-> ""]

AddResource ==
  LET new == Len(V.resources) + 1 IN
  \E r \in Some(1..Len(V.resources)) :
  \E n \in Names(NamesIn(V.resources)) : \E l \in Names(SegmentNames) : \E var \in Some({TRUE, FALSE}) :
    m' = [m EXCEPT ![Cur].resources =
            Append([@ EXCEPT ![r].locators = Append(@, Locator(l, new, var))],
                   [n |-> n, go |-> "", methods |-> <<>>, locators |-> <<>>])]

AddLocator ==
  \E rr \in Some({x \in (1..Len(V.resources)) \X (1..Len(V.resources)) : x[1] < x[2]}) :
  \E l \in Names(SegmentNames) : \E var \in Some({TRUE, FALSE}) :
    m' = [m EXCEPT ![Cur].resources[rr[1]].locators = Append(@, Locator(l, rr[2], var))]

-----------------------------------------------------------------------------
(* Methods *)
Param(n, dir, f, t, d) == [n |-> n, dir |-> dir, form |-> f, t |-> t, dflt |-> d, json |-> "", http |-> "", go |-> ""]
BodyN == N("body", "Body")
Body(dir, f, t) == Param(BodyN, dir, f, t, "")
ItemsParam(t) == Param(N("items", "Items"), "out", "list", t, "")
PagingParams == <<Param(N("page", "Page"), "in out", "plain", Basic("Integer"), "1"),
                  Param(N("size", "Size"), "in out", "plain", Basic("Integer"), "100"),
                  Param(N("total", "Total"), "out", "plain", Basic("Integer"), "")>>

Structs == {Declared(i) : i \in TypeIdx({"class", "struct"})}

(* Signatures of the known kinds of methods.  The types of the items of lists are declared: *)
Templates(k) ==
  CASE k = "Add" -> {<<Body("in out", "plain", t)>> : t \in Structs}
    [] k = "Get" -> {<<Body(d, "plain", t)>> : t \in Structs, d \in {"out", ""}}
    [] k \in {"Update", "AsyncUpdate"} -> {<<Body("in out", f, t)>> : t \in Structs, f \in {"plain", "list"}}
    [] k \in {"Delete", "AsyncDelete"} -> {<<>>}
    [] k = "List" -> {pre \o <<ItemsParam(t)>> : t \in Structs, pre \in {<<>>, PagingParams}}
    [] k = "Search" -> {pre \o <<Body("in", "plain", b), ItemsParam(t)>> : t \in Structs, b \in Structs, pre \in {<<>>, PagingParams}}
    [] k = "Post" -> {<<Param(N("request", "Request"), "in", "plain", b, ""), Param(N("response", "Response"), "out", "plain", t, "")>> : b \in Structs, t \in Structs}
                     \cup {<<Body("in out", "plain", t)>> : t \in Structs}
                     \cup {<<Param(N("response", "Response"), "out", "plain", t, "")>> : t \in Structs}
    [] OTHER -> {<<>>}

VerbOfKind(k) == Verb([kind |-> k])
(* Methods that don't have their own segment have different verbs: *)
FreeKinds(r) ==
  {k \in MethodKinds : k = "Action" \/
    /\ \A x \in MethodsOf(V, r) : x.kind = "Action" \/ VerbOfKind(k) # Verb(x)
    (* The root resource is where the metadata is retrieved: *)
    /\ r = 1 => VerbOfKind(k) # "GET"
    /\ Templates(k) # {}}

KindName(k) ==
  CASE k = "Add" -> N("add", "Add") [] k = "Get" -> N("get", "Get") [] k = "Update" -> N("update", "Update")
    [] k = "AsyncUpdate" -> <<W("async", "Async"), W("update", "Update")>>
    [] k = "AsyncDelete" -> <<W("async", "Async"), W("delete", "Delete")>>
    [] k = "Delete" -> N("delete", "Delete") [] k = "List" -> N("list", "List")
    [] k = "Search" -> N("search", "Search") [] k = "Post" -> N("post", "Post")

AddMethod ==
  \E r \in Some({x \in 1..Len(V.resources) : FreeKinds(x) # {}}) :
  \E k \in Some(FreeKinds(r)) :
  \E n \in (IF k = "Action" THEN Names(SegmentNames) ELSE {KindName(k)}) :
  \E ps \in Some(Templates(k)) :
    m' = [m EXCEPT ![Cur].resources[r].methods = Append(@, [kind |-> k, n |-> n, params |-> ps, http |-> "", go |-> ""])]

MethodIdx(Op(_)) ==
  UNION {{<<r, i>> : i \in {x \in 1..Len(V.resources[r].methods) : Op(V.resources[r].methods[x])}} : r \in 1..Len(V.resources)}

ScalarTargets == {Basic(b) : b \in Basics \ {"Interface"}} \cup {Declared(i) : i \in TypeIdx({"enum"})}

(* Names that are the same as the names of the path parameters.  An initialism can't follow another, because there would be no
   separation between them. *)
Initialisms == {W("url", "URL"), W("aws", "AWS"), W("cpu", "CPU"), W("id", "ID")}
IdNames == {n \o N("id", "ID") : n \in {x \in UNION {NamesIn(V.resources[r].locators) : r \in 1..Len(V.resources)} : x[Len(x)] \notin Initialisms}}

(* Scalar inputs of the known kinds of methods: *)
AddInput ==
  \E x \in Some(MethodIdx(LAMBDA y : y.kind \notin {"Action", "Post"})) :
  \E n \in Some((NamePool \cup IdNames) \ NamesIn(V.resources[x[1]].methods[x[2]].params)) :
  \E t \in Some(ScalarTargets) :
  \E d \in Some(CASE t.b = "Integer" -> {"", "7"} [] t.b = "Boolean" -> {"", "true"} [] t.b = "String" -> {"", "\"x\""} [] OTHER -> {""}) :
    m' = [m EXCEPT ![Cur].resources[x[1]].methods[x[2]].params = <<Param(n, "in", "plain", t, d)>> \o @]

(* Parameters of actions: *)
AddActionParam ==
  \E x \in Some(MethodIdx(LAMBDA y : y.kind = "Action")) :
  \E n \in Names(NamesIn(V.resources[x[1]].methods[x[2]].params)) :
  \E f \in Some(Forms) : \E t \in Some(AnyTarget) : \E dir \in Some({"in", "out", "in out"}) :
    m' = [m EXCEPT ![Cur].resources[x[1]].methods[x[2]].params = Append(@, Param(n, dir, f, t, ""))]

AddError ==
  \E n \in Names(NamesIn(V.errors)) : \E c \in Some({1, 17, 404, 1000}) :
    m' = [m EXCEPT ![Cur].errors = Append(@, [n |-> n, code |-> c])]

-----------------------------------------------------------------------------
(* Annotations.  The annotated names are always new. *)
Fresh(p) == p \o ToString(steps)

AttrIdx == UNION {{<<i, k>> : k \in 1..Len(V.types[i].attrs)} : i \in 1..Len(V.types)}
ValueIdx == UNION {{<<i, k>> : k \in 1..Len(V.types[i].values)} : i \in 1..Len(V.types)}
LocatorIdx == UNION {{<<r, k>> : k \in 1..Len(V.resources[r].locators)} : r \in 1..Len(V.resources)}
(* The names of the fixed parameters are part of the protocol: *)
FixedNames == {N("page", "Page"), N("size", "Size"), N("total", "Total"), N("items", "Items"), BodyN,
               N("request", "Request"), N("response", "Response")}
ParamIdx ==
  UNION {{<<x[1], x[2], k>> : k \in {j \in 1..Len(V.resources[x[1]].methods[x[2]].params) :
            V.resources[x[1]].methods[x[2]].params[j].n \notin FixedNames}} : x \in MethodIdx(LAMBDA y : TRUE)}

AnnotateJson ==
  \/ \E x \in Some(AttrIdx) : m' = [m EXCEPT ![Cur].types[x[1]].attrs[x[2]].json = Fresh("theJson")]
  \/ \E x \in Some(ValueIdx) : m' = [m EXCEPT ![Cur].types[x[1]].values[x[2]].json = Fresh("The-Json-")]
  \/ \E x \in Some(ParamIdx) : m' = [m EXCEPT ![Cur].resources[x[1]].methods[x[2]].params[x[3]].json = Fresh("paramJson")]

AnnotateHttp ==
  \/ \E x \in Some(LocatorIdx) : m' = [m EXCEPT ![Cur].resources[x[1]].locators[x[2]].http = Fresh("theHttp")]
  \/ \E x \in Some(MethodIdx(LAMBDA y : TRUE)) : m' = [m EXCEPT ![Cur].resources[x[1]].methods[x[2]].http = Fresh("action-")]
  \/ \E x \in Some(ParamIdx) : m' = [m EXCEPT ![Cur].resources[x[1]].methods[x[2]].params[x[3]].http = Fresh("paramHttp")]

AnnotateGo ==
  \/ \E i \in Some(1..Len(V.types)) : m' = [m EXCEPT ![Cur].types[i].go = Fresh("GoType")]
  \/ \E x \in Some(AttrIdx) : m' = [m EXCEPT ![Cur].types[x[1]].attrs[x[2]].go = Fresh("GoAttr")]
  \/ \E r \in Some(1..Len(V.resources)) : m' = [m EXCEPT ![Cur].resources[r].go = Fresh("GoResource")]
  \/ \E x \in Some(ValueIdx) : m' = [m EXCEPT ![Cur].types[x[1]].values[x[2]].go = Fresh("GoValue")]
  \/ \E x \in Some(LocatorIdx) : m' = [m EXCEPT ![Cur].resources[x[1]].locators[x[2]].go = Fresh("GoLocator")]
  \/ \E x \in Some(MethodIdx(LAMBDA y : TRUE)) : m' = [m EXCEPT ![Cur].resources[x[1]].methods[x[2]].go = Fresh("GoMethod")]
  \/ \E x \in Some(ParamIdx) : m' = [m EXCEPT ![Cur].resources[x[1]].methods[x[2]].params[x[3]].go = Fresh("GoParam")]

-----------------------------------------------------------------------------
Step(k) ==
  CASE k = "version"  -> AddVersion
    [] k = "enum"     -> AddEnum
    [] k = "value"    -> AddValue
    [] k = "class"    -> AddStruct("class")
    [] k = "struct"   -> AddStruct("struct")
    [] k = "attr"     -> AddAttr(AnyTarget)
    (* Objects inside others: *)
    [] k = "nested"   -> AddAttr({Declared(i) : i \in TypeIdx({"class", "struct"})})
    [] k = "resource" -> AddResource
    [] k = "locator"  -> AddLocator
    [] k = "method"   -> AddMethod
    [] k = "input"    -> AddInput
    [] k = "param"    -> AddActionParam
    [] k = "error"    -> AddError
    [] k = "json"     -> AnnotateJson
    [] k = "http"     -> AnnotateHttp
    [] k = "go"       -> AnnotateGo

(* What a step of that kind needs: *)
Possible(k) ==
  CASE k = "value"   -> TypeIdx({"enum"}) # {}
    [] k \in {"attr", "nested"}   -> TypeIdx({"class", "struct"}) # {}
    [] k = "locator" -> Len(V.resources) > 1
    [] k = "method"  -> \E r \in 1..Len(V.resources) : FreeKinds(r) # {}
    [] k = "input"   -> MethodIdx(LAMBDA y : y.kind \notin {"Action", "Post"}) # {}
    [] k = "param"   -> MethodIdx(LAMBDA y : y.kind = "Action") # {}
    [] k = "json"    -> AttrIdx \cup ValueIdx # {} \/ ParamIdx # {}
    [] k = "http"    -> LocatorIdx # {} \/ MethodIdx(LAMBDA y : TRUE) # {} \/ ParamIdx # {}
    [] k = "go"      -> V.types # <<>> \/ LocatorIdx # {}
    [] OTHER -> TRUE

GenNext ==
  /\ steps < Len(Plan)
  /\ IF Possible(Plan[steps + 1]) THEN Step(Plan[steps + 1]) ELSE UNCHANGED m
  /\ steps' = steps + 1

Generated == steps = Len(Plan)
=============================================================================
