----------------------------- MODULE Vocabulary -----------------------------
(***************************************************************************)
(* Names that mean something in Go (property G01).  A list of words is     *)
(* used, one after another, to name elements that have one role: reserved  *)
(* words, predeclared identifiers, packages that the generated code        *)
(* imports and variables that it uses.  The only words that are skipped    *)
(* are those that would repeat a public name, and those of the fixed       *)
(* members of the generated code.                                          *)
(***************************************************************************)
EXTENDS GoApi

CONSTANTS
  Vocab,    \* sequence of words
  Roles,    \* roles to explore
  FixedOf   \* FixedOf[role]: words that the generated code uses for members of its own

VARIABLES role, pos, skipped

vars == <<m, steps, role, pos, skipped>>

-----------------------------------------------------------------------------
T(kind, l, c) == [kind |-> kind, n |-> N(l, c), go |-> "", attrs |-> <<>>, values |-> <<>>]
Method(kind, n, ps) == [kind |-> kind, n |-> n, params |-> ps, http |-> "", go |-> ""]
Resource(n) == [n |-> n, go |-> "", methods |-> <<>>, locators |-> <<>>]

(* What the version has before any word is used.  The types are always in the same positions: *)
Enum == 1
Class == 2
Struct == 3
Start(v) ==
  [v EXCEPT !.types = <<[T("enum", "color", "Color") EXCEPT !.values = <<[n |-> N("red", "Red"), json |-> "", go |-> ""]>>],
                        T("class", "cat", "Cat"), T("struct", "tail", "Tail")>>,
            !.resources = <<[@[1] EXCEPT !.locators = <<Locator(N("cats", "Cats"), 2, FALSE)>>,
                                         !.methods = <<Method("Action", N("feed", "Feed"), <<>>)>>],
                            [Resource(N("cats", "Cats")) EXCEPT !.methods = <<
                               Method("List", N("list", "List"), PagingParams \o <<ItemsParam(Declared(Class))>>),
                               Method("Add", N("add", "Add"), <<Body("in out", "plain", Declared(Class))>>)>>,
                               !.locators = <<Locator(N("cat", "Cat"), 3, TRUE)>>],
                            [Resource(N("cat", "Cat")) EXCEPT !.methods = <<
                               Method("Get", N("get", "Get"), <<Body("out", "plain", Declared(Class))>>),
                               Method("Update", N("update", "Update"), <<Body("in out", "plain", Declared(Class))>>),
                               Method("Delete", N("delete", "Delete"), <<>>)>>]>>]

-----------------------------------------------------------------------------
(* The type of an element depends on the position of its word, so that consecutive words are used
   with different types: *)
Targets == [i \in 1..7 |-> Basic(<<"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface">>[i])]
           \o <<Declared(Enum), Declared(Class), Declared(Struct)>>
FormSeq == <<"plain", "list", "map">>
TargetAt(i) == Targets[(i % 10) + 1]
FormAt(i) == FormSeq[((i \div 10) % 3) + 1]
ScalarAt(i) == (Targets \o <<Declared(Enum)>>)[IF i % 7 = 6 THEN 8 ELSE (i % 7) + 1]
DirAt(i) == <<"in", "out", "in out", "in">>[(i % 4) + 1]

AddAttrTo(v, t, n, i) ==
  [v EXCEPT !.types[t].attrs = Append(@, [n |-> n, form |-> FormAt(i), t |-> TargetAt(i),
     link |-> t = Class /\ TargetAt(i) = Declared(Class) /\ FormAt(i) # "map", json |-> "", go |-> ""])]

Prepend(v, r, x, p) == [v EXCEPT !.resources[r].methods[x].params = <<p>> \o @]

Use(v, n, i) ==
  CASE role = "attr"     -> AddAttrTo(AddAttrTo(v, Class, n, i), Struct, n, i + 13)
    [] role = "value"    -> [v EXCEPT !.types[Enum].values = Append(@, [n |-> n, json |-> "", go |-> ""])]
    [] role = "class"    -> [v EXCEPT !.types = Append(@, [T("class", "", "") EXCEPT !.n = n, !.attrs = <<
                               [n |-> N("color", "Color"), form |-> FormAt(i + 10), t |-> TargetAt(i), link |-> FALSE, json |-> "", go |-> ""],
                               [n |-> N("other", "Other"), form |-> FormAt(i), t |-> Declared(Len(v.types) + 1), link |-> FormAt(i) # "map", json |-> "", go |-> ""]>>])]
    [] role = "struct"   -> [v EXCEPT !.types = Append(@, [T("struct", "", "") EXCEPT !.n = n, !.attrs = <<
                               [n |-> N("color", "Color"), form |-> FormAt(i), t |-> TargetAt(i), link |-> FALSE, json |-> "", go |-> ""],
                               [n |-> N("other", "Other"), form |-> FormAt(i + 10), t |-> Declared(Len(v.types) + 1), link |-> FALSE, json |-> "", go |-> ""]>>])]
    [] role = "enum"     -> AddAttrTo([v EXCEPT !.types = Append(@, [T("enum", "", "") EXCEPT !.n = n,
                               !.values = <<[n |-> N("blue", "Blue"), json |-> "", go |-> ""]>>])], Struct, n, i)
    [] role = "error"    -> [v EXCEPT !.errors = Append(@, [n |-> n, code |-> i])]
    [] role = "resource" -> [v EXCEPT !.resources = Append([@ EXCEPT ![1].locators = Append(@, Locator(n, Len(v.resources) + 1, i % 2 = 0))],
                               [Resource(n) EXCEPT !.methods = <<Method("Get", N("get", "Get"), <<Body("out", "plain", Declared(Class))>>)>>])]
    [] role = "locator"  -> [v EXCEPT !.resources[2].locators = Append(@, Locator(n, 3, i % 2 = 0))]
    [] role = "action"   -> [v EXCEPT !.resources[3].methods = Append(@, Method("Action", n, <<Param(n, DirAt(i), FormAt(i), TargetAt(i), "")>>))]
    [] role = "param"    -> [v EXCEPT !.resources[1].methods[1].params = Append(@, Param(n, DirAt(i), FormAt(i), TargetAt(i), ""))]
    [] role = "input"    -> Prepend(Prepend(Prepend(Prepend(v, 2, 1, Param(n, "in", "plain", ScalarAt(i), "")),
                                                    3, 1, Param(n, "in", "plain", ScalarAt(i + 1), "")),
                                            3, 2, Param(n, "in", "plain", ScalarAt(i + 2), "")),
                                    3, 3, Param(n, "in", "plain", ScalarAt(i + 3), ""))

-----------------------------------------------------------------------------
Init ==
  /\ role \in Roles
  /\ \E sv \in SvcPool : m = <<Start(EmptyVersion(sv))>>
  /\ steps = 0 /\ pos = 0 /\ skipped = {}

Next ==
  /\ pos < Len(Vocab)
  /\ pos' = pos + 1
  /\ LET w == Vocab[pos + 1]
         new == Use(V, <<w>>, pos)
     IN  IF w.l \notin FixedOf[role] /\ Clean(new)
         THEN m' = <<new>> /\ UNCHANGED skipped
         ELSE skipped' = skipped \cup {w.l} /\ UNCHANGED m
  /\ UNCHANGED <<steps, role>>

Done == pos = Len(Vocab)

-----------------------------------------------------------------------------
(* No public name is written twice: *)
NoRepetitions == Clean(V)

(* Each word that wasn't skipped added at least one public name: *)
AllUsed ==
  Done => \A i \in 1..Len(Vocab) :
    Vocab[i].l \in skipped \/ \E x \in PublicNames(V) : \E suffix \in {"", "Error", "Client", "Request"} :
      x.n \in {Vocab[i].c \o suffix, "Color" \o Vocab[i].c}

Emission == Done => EmitCase([model |-> m, role |-> role, skipped |-> SetToSeq(skipped),
                              names |-> <<SetToSeq(PublicNames(V))>>])
=============================================================================
