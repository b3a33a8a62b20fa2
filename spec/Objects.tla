------------------------------- MODULE Objects ------------------------------
(***************************************************************************)
(* Builders, objects and lists (properties D01, D02 and D03).              *)
(*                                                                         *)
(* The state is a heap of builders, of objects and of the slices and maps  *)
(* that were given to builders.  A history is a sequence of calls; several *)
(* histories are made for the same model.  Objects are values: no          *)
(* transition changes one that was already built.                          *)
(***************************************************************************)
EXTENDS GoApi, Integers, TLC

CONSTANTS
  PoolSize,   \* number of different values of the basic types; the first one is the zero value
  OpKinds,    \* sequence of kinds of calls, where each one appears as many times as its weight
  OpCount,    \* number of calls in each history
  HistCount,  \* number of histories for each model
  MaxItems,   \* maximum number of items of lists and maps
  Given       \* a model, or an empty sequence if the model has to be generated

VARIABLES
  phase,  \* "grow", "use" or "end"
  bs,     \* builders
  os,     \* objects and lists
  hs,     \* slices and maps: how many times each one has been modified
  hist,   \* the current history
  hists   \* the finished ones

vars == <<m, steps, phase, bs, os, hs, hist, hists>>

V1 == m[1]
Ty(t) == V1.types[t]
Attrs(t) == Ty(t).attrs
StructTypes == {i \in 1..Len(V1.types) : Ty(i).kind \in {"class", "struct"}}

-----------------------------------------------------------------------------
(* Values.  Scalars are numbers, with a meaning for each type; lists are sequences, maps are
   sequences of keys and values in the order of the keys, and objects are records. *)
S(x) == [k |-> "s", x |-> x]
L(xs) == [k |-> "l", xs |-> xs]
Mp(ks, xs) == [k |-> "m", ks |-> ks, xs |-> xs]
None == [k |-> "n"]

Pool(t) ==
  IF IsBasic(t) THEN (IF t.b = "Boolean" THEN 0..1 ELSE 0..(PoolSize - 1))
  ELSE 0..Len(V1.types[t.i].values)

Maybe(x) == [p |-> TRUE, v |-> x]
Absent == [p |-> FALSE, v |-> None]

EmptyObject(t) == [k |-> "o", t |-> t, link |-> FALSE, id |-> Absent, href |-> Absent,
                   vals |-> [i \in 1..Len(Attrs(t)) |-> Absent]]
EmptyList(t) == [k |-> "L", t |-> t, items |-> <<>>, link |-> FALSE, href |-> Absent]

IsEmpty(o) ==
  IF o.k = "L" THEN o.items = <<>>
  ELSE ~o.id.p /\ ~o.href.p /\ \A i \in 1..Len(o.vals) : ~o.vals[i].p

-----------------------------------------------------------------------------
(* A builder has the object that it would build, and what each attribute depends on: builders and
   handles of maps, with the version that they had.  A builder that depends on something that changed
   later isn't used until that attribute is set again, because the property says nothing about it.
   Slices are copied when they are given, so nothing depends on them. *)
NewBuilder(o) == [o |-> o, deps |-> [i \in 1..Len(IF o.k = "o" THEN o.vals ELSE <<1>>) |-> {}], ver |-> 0]

Dep(kind, i, v) == [kind |-> kind, i |-> i, v |-> v]

RECURSIVE Valid(_)
Valid(b) ==
  \A i \in 1..Len(bs[b].deps) : \A d \in bs[b].deps[i] :
    IF d.kind = "b" THEN bs[d.i].ver = d.v /\ Valid(d.i) ELSE hs[d.i] = d.v

RECURSIVE Inside(_)
Inside(b) == {b} \cup UNION {UNION {Inside(d.i) : d \in {x \in bs[b].deps[i] : x.kind = "b"}} : i \in 1..Len(bs[b].deps)}

BuildersOf(kind, t) == {b \in 1..Len(bs) : bs[b].o.k = kind /\ bs[b].o.t = t}
(* Builders that can be used inside another: *)
Candidates(kind, t, b) == {c \in BuildersOf(kind, t) : b \notin Inside(c) /\ Valid(c)}
BuilderDeps(cs) == {Dep("b", c, bs[c].ver) : c \in cs}
ObjectsOf(kind, t) == {o \in 1..Len(os) : os[o].k = kind /\ os[o].t = t}

(* Changes of a builder: *)
With(b, o, i, deps) == [bs EXCEPT ![b] = [o |-> o, deps |-> [@.deps EXCEPT ![i] = deps], ver |-> @.ver + 1]]
WithAll(b, o) == [bs EXCEPT ![b] = [NewBuilder(o) EXCEPT !.ver = bs[b].ver + 1]]
WithObject(b, o) == [bs EXCEPT ![b] = [@ EXCEPT !.o = o, !.ver = @ + 1]]

Log(r) == hist' = Append(hist, r)

-----------------------------------------------------------------------------
(* Calls *)
New ==
  \E t \in Some(StructTypes) :
    /\ bs' = Append(bs, NewBuilder(EmptyObject(t)))
    /\ Log([op |-> "new", t |-> t])
    /\ UNCHANGED <<os, hs>>

ObjBuilders == {b \in 1..Len(bs) : bs[b].o.k = "o"}
Settable == {b \in ObjBuilders : Attrs(bs[b].o.t) # <<>>}
ClassBuilders == {b \in ObjBuilders : Ty(bs[b].o.t).kind = "class"}
ListBuilders == {b \in 1..Len(bs) : bs[b].o.k = "L"}

SetTo(b, i, v, deps, arg, h) ==
  /\ bs' = With(b, [bs[b].o EXCEPT !.vals[i] = Maybe(v)], i, deps)
  /\ hs' = IF h THEN Append(hs, 0) ELSE hs
  /\ Log([op |-> "set", b |-> b, i |-> i, arg |-> arg])
  /\ UNCHANGED os

NextHandle == Len(hs) + 1
HandleDep == Dep("h", NextHandle, 0)
Keys(ks) == SetToSortSeq(ks, <)

PutItems(b, xs) ==
  /\ bs' = With(b, [bs[b].o EXCEPT !.items = [j \in 1..Len(xs) |-> bs[xs[j]].o]], 1, BuilderDeps(Range1(xs)))
  /\ hs' = Append(hs, 0)
  /\ Log([op |-> "items", b |-> b, bs |-> xs, h |-> NextHandle])
  /\ UNCHANGED os

Set ==
  \E b \in Some(Settable) : \E i \in Some(1..Len(bs[b].o.vals)) :
    LET a == Attrs(bs[b].o.t)[i]
        scalar == KindOf(V1, a.t) \in {"basic", "enum"}
        cands == IF scalar THEN {} ELSE Candidates("o", a.t.i, b)
    IN
    CASE a.form = "plain" /\ scalar ->
           \E x \in Some(Pool(a.t)) : SetTo(b, i, S(x), {}, [k |-> "s", x |-> x], FALSE)
      [] a.form = "list" /\ scalar ->
           \E n \in Some(0..MaxItems) : \E xs \in Some([1..n -> Pool(a.t)]) :
             SetTo(b, i, L([j \in 1..n |-> S(xs[j])]), {}, [k |-> "l", xs |-> xs, h |-> NextHandle], TRUE)
      [] a.form = "map" /\ scalar ->
           \E ks \in Some(SUBSET (0..(MaxItems - 1))) : \E xs \in Some([ks -> Pool(a.t)]) :
             LET q == Keys(ks) IN
             SetTo(b, i, Mp(q, [j \in 1..Len(q) |-> S(xs[q[j]])]), {HandleDep},
                   [k |-> "m", ks |-> q, xs |-> [j \in 1..Len(q) |-> xs[q[j]]], h |-> NextHandle], TRUE)
      [] a.form = "plain" /\ ~scalar ->
           IF cands = {} THEN UNCHANGED <<bs, os, hs, hist>>
           ELSE \E c \in Some(cands) : SetTo(b, i, bs[c].o, BuilderDeps({c}), [k |-> "b", b |-> c], FALSE)
      [] a.form = "list" /\ ~scalar /\ ~a.link ->
           \E n \in Some(0..(IF cands = {} THEN 0 ELSE MaxItems)) : \E xs \in Some([1..n -> cands]) :
             SetTo(b, i, L([j \in 1..n |-> bs[xs[j]].o]), BuilderDeps(Range1(xs)),
                   [k |-> "lb", bs |-> xs, h |-> NextHandle], TRUE)
      [] a.form = "list" /\ ~scalar /\ a.link ->
           LET ls == Candidates("L", a.t.i, b) IN
           IF ls = {} THEN UNCHANGED <<bs, os, hs, hist>>
           ELSE \E c \in Some(ls) : SetTo(b, i, bs[c].o, BuilderDeps({c}), [k |-> "b", b |-> c], FALSE)
      [] a.form = "map" /\ ~scalar ->
           \E ks \in Some(IF cands = {} THEN {{}} ELSE SUBSET (0..(MaxItems - 1))) : \E xs \in Some([ks -> cands]) :
             LET q == Keys(ks) IN
             SetTo(b, i, Mp(q, [j \in 1..Len(q) |-> bs[xs[q[j]]].o]), {HandleDep} \cup BuilderDeps({xs[x] : x \in ks}),
                   [k |-> "mb", ks |-> q, bs |-> [j \in 1..Len(q) |-> xs[q[j]]], h |-> NextHandle], TRUE)

(* A step towards objects that contain other objects: gives some to a builder, preferably not empty, or makes
   the builder that it needs. *)
NestedAttrs(b) == {i \in 1..Len(bs[b].o.vals) : KindOf(V1, Attrs(bs[b].o.t)[i].t) \in {"class", "struct"}}
Nest ==
  LET B == {b \in Settable : NestedAttrs(b) # {}} IN
  IF B = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E b \in Some(B) : \E i \in Some(NestedAttrs(b)) :
    LET a == Attrs(bs[b].o.t)[i]
        list == a.form = "list" /\ a.link
        cands == Candidates(IF list THEN "L" ELSE "o", a.t.i, b)
        full == {c \in cands : ~IsEmpty(bs[c].o)}
        best == IF full # {} THEN full ELSE cands
    IN
    IF cands = {}
    THEN /\ bs' = Append(bs, NewBuilder(IF list THEN EmptyList(a.t.i) ELSE EmptyObject(a.t.i)))
         /\ Log([op |-> IF list THEN "newlist" ELSE "new", t |-> a.t.i])
         /\ UNCHANGED <<os, hs>>
    ELSE CASE list /\ full = {} ->
                \E c \in Some(cands) :
                  LET items == Candidates("o", a.t.i, c) IN
                  IF items = {}
                  THEN bs' = Append(bs, NewBuilder(EmptyObject(a.t.i))) /\ Log([op |-> "new", t |-> a.t.i]) /\ UNCHANGED <<os, hs>>
                  ELSE \E n \in Some(1..MaxItems) : \E xs \in Some([1..n -> items]) : PutItems(c, xs)
           [] a.form = "plain" \/ list ->
                \E c \in Some(best) : SetTo(b, i, bs[c].o, BuilderDeps({c}), [k |-> "b", b |-> c], FALSE)
           [] a.form = "list" /\ ~a.link ->
                \E n \in Some(1..MaxItems) : \E xs \in Some([1..n -> best]) :
                  SetTo(b, i, L([j \in 1..n |-> bs[xs[j]].o]), BuilderDeps(Range1(xs)),
                        [k |-> "lb", bs |-> xs, h |-> NextHandle], TRUE)
           [] a.form = "map" ->
                \E ks \in Some((SUBSET (0..(MaxItems - 1))) \ {{}}) : \E xs \in Some([ks -> best]) :
                  LET q == Keys(ks) IN
                  SetTo(b, i, Mp(q, [j \in 1..Len(q) |-> bs[xs[q[j]]].o]), {HandleDep} \cup BuilderDeps({xs[x] : x \in ks}),
                        [k |-> "mb", ks |-> q, bs |-> [j \in 1..Len(q) |-> xs[q[j]]], h |-> NextHandle], TRUE)

(* A nil value clears attributes that are objects or maps: *)
Clearable(b) == {i \in 1..Len(bs[b].o.vals) :
                   LET a == Attrs(bs[b].o.t)[i] IN a.form = "map" \/ (a.form = "plain" /\ KindOf(V1, a.t) \in {"class", "struct"})}
Clear ==
  LET C == {b \in Settable : Clearable(b) # {}} IN
  IF C = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E b \in Some(C) : \E i \in Some(Clearable(b)) :
    /\ bs' = With(b, [bs[b].o EXCEPT !.vals[i] = Absent], i, {})
    /\ Log([op |-> "nil", b |-> b, i |-> i])
    /\ UNCHANGED <<os, hs>>

Ident ==
  IF ClassBuilders = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E b \in Some(ClassBuilders) :
    \/ \E x \in Some({TRUE, FALSE}) :
         /\ bs' = WithObject(b, [bs[b].o EXCEPT !.link = x])
         /\ Log([op |-> "link", b |-> b, x |-> x])
         /\ UNCHANGED <<os, hs>>
    \/ \E f \in Some({"id", "href"}) : \E x \in Some(0..(PoolSize - 1)) :
         /\ bs' = WithObject(b, [bs[b].o EXCEPT ![f] = Maybe(S(x))])
         /\ Log([op |-> f, b |-> b, x |-> x])
         /\ UNCHANGED <<os, hs>>

Buildable(B) == {b \in B : Valid(b)}
(* Builders with other builders inside are preferred half of the times: *)
WithOthers(C, x) == LET D == {b \in C : \E i \in 1..Len(bs[b].deps) : bs[b].deps[i] # {}} IN IF x = 1 /\ D # {} THEN D ELSE C

Build ==
  LET C == Buildable(ObjBuilders) IN
  IF C = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E x \in Some({1, 2}) : \E b \in Some(WithOthers(C, x)) :
    /\ os' = Append(os, bs[b].o)
    /\ Log([op |-> "build", b |-> b, v |-> bs[b].o])
    /\ UNCHANGED <<bs, hs>>

(* Copy replaces all the content of the builder: *)
Copy ==
  LET P == {x \in ObjBuilders \X (1..Len(os)) : os[x[2]].k = "o" /\ os[x[2]].t = bs[x[1]].o.t} IN
  IF P = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E x \in Some(P) :
    /\ bs' = WithAll(x[1], os[x[2]])
    /\ Log([op |-> "copy", b |-> x[1], o |-> x[2]])
    /\ UNCHANGED <<os, hs>>

(* Copying a nil object changes nothing, and a nil list doesn't have items: *)
CopyNil ==
  IF bs = <<>> THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E b \in Some(1..Len(bs)) :
    /\ Log([op |-> "copynil", b |-> b])
    /\ bs' = IF bs[b].o.k = "o" THEN bs ELSE WithAll(b, EmptyList(bs[b].o.t))
    /\ UNCHANGED <<os, hs>>

Empty ==
  LET C == Buildable(1..Len(bs)) IN
  IF C = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E b \in Some(C) : Log([op |-> "empty", b |-> b, v |-> IsEmpty(bs[b].o)]) /\ UNCHANGED <<bs, os, hs>>

(* Objects with other objects inside are also preferred half of the times: *)
HasObjects(v) == v.p /\ (v.v.k = "o" \/ (v.v.k = "L" /\ v.v.items # <<>>) \/ (v.v.k \in {"l", "m"} /\ v.v.xs # <<>> /\ v.v.xs[1].k = "o"))
Outer(C, x) ==
  LET D == {o \in C : os[o].k = "o" /\ \E i \in 1..Len(os[o].vals) : HasObjects(os[o].vals[i])} IN IF x = 1 /\ D # {} THEN D ELSE C

(* Objects that are inside other objects: *)
Nested(o) ==
  IF os[o].k = "L" THEN {<<0, j>> : j \in 1..Len(os[o].items)}
  ELSE {<<i, 0>> : i \in {x \in 1..Len(os[o].vals) : os[o].vals[x].p /\ os[o].vals[x].v.k \in {"o", "L"}}}
GetNested ==
  LET P == {o \in 1..Len(os) : Nested(o) # {}} IN
  IF P = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E o \in Some(P) : \E x \in Some(Nested(o)) :
    LET v == IF x[1] = 0 THEN os[o].items[x[2]] ELSE os[o].vals[x[1]].v IN
    /\ os' = Append(os, v)
    /\ Log([op |-> "get", o |-> o, i |-> x[1], j |-> x[2], v |-> v])
    /\ UNCHANGED <<bs, hs>>

(* Modification of slices and maps that were given to builders: *)
Mutate ==
  IF hs = <<>> THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E h \in Some(1..Len(hs)) :
    /\ hs' = [hs EXCEPT ![h] = @ + 1]
    /\ Log([op |-> "mutate", h |-> h])
    /\ UNCHANGED <<bs, os>>

(* Reading from a nil object or list: *)
ReadNil ==
  \E t \in Some(StructTypes) : \E k \in Some({"o", "L"}) :
    Log([op |-> "readnil", t |-> t, k |-> k]) /\ UNCHANGED <<bs, os, hs>>

-----------------------------------------------------------------------------
(* Lists *)
NewList ==
  \E t \in Some(StructTypes) :
    /\ bs' = Append(bs, NewBuilder(EmptyList(t)))
    /\ Log([op |-> "newlist", t |-> t])
    /\ UNCHANGED <<os, hs>>

SetItems ==
  IF ListBuilders = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E b \in Some(ListBuilders) :
    LET cands == Candidates("o", bs[b].o.t, b) IN
    \E n \in Some(0..(IF cands = {} THEN 0 ELSE MaxItems + 1)) : \E xs \in Some([1..n -> cands]) : PutItems(b, xs)

BuildList ==
  LET C == Buildable(ListBuilders) IN
  IF C = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E b \in Some(C) :
    /\ os' = Append(os, bs[b].o)
    /\ Log([op |-> "build", b |-> b, v |-> bs[b].o])
    /\ UNCHANGED <<bs, hs>>

CopyList ==
  LET P == {x \in ListBuilders \X (1..Len(os)) : os[x[2]].k = "L" /\ os[x[2]].t = bs[x[1]].o.t} IN
  IF P = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E x \in Some(P) :
    /\ bs' = WithAll(x[1], os[x[2]])
    /\ Log([op |-> "copy", b |-> x[1], o |-> x[2]])
    /\ UNCHANGED <<os, hs>>

(* Iterators: the callback asks to stop at the given item, if there is one *)
RECURSIVE Visited(_, _, _)
Visited(items, i, stop) ==
  IF i > Len(items) THEN <<>> ELSE IF i = stop THEN <<i>> ELSE <<i>> \o Visited(items, i + 1, stop)

Iterate ==
  LET P == {o \in 1..Len(os) : os[o].k = "L"} IN
  IF P = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E o \in Some(P) : \E f \in Some({"Each", "Range"}) : \E stop \in Some(0..(Len(os[o].items) + 1)) :
    /\ Log([op |-> "iterate", o |-> o, f |-> f, stop |-> stop, seen |-> Visited(os[o].items, 1, stop)])
    /\ UNCHANGED <<bs, os, hs>>

Index ==
  LET P == {o \in 1..Len(os) : os[o].k = "L"} IN
  IF P = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E o \in Some(P) : \E i \in Some((0 - 2)..(Len(os[o].items) + 2)) :
    /\ Log([op |-> "index", o |-> o, i |-> i, ok |-> i \in 0..(Len(os[o].items) - 1)])
    /\ UNCHANGED <<bs, os, hs>>

(* The slice that a list gives is a copy: *)
MutateSlice ==
  LET P == {o \in 1..Len(os) : os[o].k = "L" /\ os[o].items # <<>>} IN
  IF P = {} THEN UNCHANGED <<bs, os, hs, hist>>
  ELSE \E o \in Some(P) : Log([op |-> "slice", o |-> o]) /\ UNCHANGED <<bs, os, hs>>

Do(k) ==
  CASE k = "new" -> New [] k = "set" -> Set [] k = "nest" -> Nest [] k = "nil" -> Clear [] k = "ident" -> Ident [] k = "build" -> Build
    [] k = "copy" -> Copy [] k = "copynil" -> CopyNil [] k = "empty" -> Empty [] k = "get" -> GetNested
    [] k = "mutate" -> Mutate [] k = "readnil" -> ReadNil [] k = "newlist" -> NewList [] k = "items" -> SetItems
    [] k = "buildlist" -> BuildList [] k = "copylist" -> CopyList [] k = "iterate" -> Iterate [] k = "index" -> Index
    [] k = "slice" -> MutateSlice

-----------------------------------------------------------------------------
Nothing == bs = <<>> /\ os = <<>> /\ hs = <<>> /\ hist = <<>>

Init ==
  /\ IF Given = <<>> THEN GenInit ELSE m = Given /\ steps = Len(Plan)
  /\ phase = "grow" /\ Nothing /\ hists = <<>>

Grow == phase = "grow" /\ GenNext /\ UNCHANGED <<phase, bs, os, hs, hist, hists>>

Start ==
  /\ phase = "grow" /\ Generated
  /\ phase' = IF StructTypes # {} /\ Clean(V1) THEN "use" ELSE "bad"
  /\ UNCHANGED <<m, steps, bs, os, hs, hist, hists>>

(* Calls made so far in this history, counting those that weren't possible: *)
Count == steps - Len(Plan)

(* The first call creates a builder.  With random choices impossible calls do nothing, otherwise
   they aren't tried: *)
Call ==
  /\ phase = "use" /\ Count < OpCount
  /\ \E i \in Some(1..Len(OpKinds)) : IF ObjBuilders = {} THEN New ELSE Do(OpKinds[i])
  /\ Random \/ hist' # hist
  /\ steps' = steps + 1
  /\ UNCHANGED <<m, phase, hists>>

Finish ==
  /\ phase = "use" /\ Count = OpCount
  /\ hists' = Append(hists, [calls |-> hist, objects |-> os])
  /\ bs' = <<>> /\ os' = <<>> /\ hs' = <<>> /\ hist' = <<>>
  /\ steps' = Len(Plan)
  /\ phase' = IF Len(hists') = HistCount THEN "end" ELSE "use"
  /\ UNCHANGED m

Next == Grow \/ Start \/ Call \/ Finish

-----------------------------------------------------------------------------
(* D01: what is present according to the history alone is what is present in the builder.  The
   history of a builder starts at its last copy. *)
LastFor(b, i) ==
  LET C == {j \in 1..Len(hist) : hist[j].op \in {"set", "nil", "copy"} /\ hist[j].b = b /\ (hist[j].op = "copy" \/ hist[j].i = i)} IN
  IF C = {} THEN 0 ELSE Max(C)

PresenceFollowsHistory ==
  \A b \in ObjBuilders : \A i \in 1..Len(bs[b].o.vals) :
    LET j == LastFor(b, i) IN
    bs[b].o.vals[i].p <=> (j # 0 /\ (hist[j].op = "set" \/ (hist[j].op = "copy" /\ os[hist[j].o].vals[i].p)))

(* D02: objects never change: *)
ObjectsAreImmutable == [][\/ Len(os') = 0 \/ SubSeq(os', 1, Len(os)) = os]_vars

(* D02: a builder that isn't used by others and depends on nothing can always be built: *)
NoDepsIsFresh == \A b \in 1..Len(bs) : (\A i \in 1..Len(bs[b].deps) : bs[b].deps[i] = {}) => Valid(b)

(* D03: an iteration visits a prefix, up to the item where it stops: *)
IterationsArePrefixes ==
  \A j \in 1..Len(hist) : hist[j].op = "iterate" =>
    LET n == Len(os[hist[j].o].items)
        k == IF hist[j].stop \in 1..n THEN hist[j].stop ELSE n
    IN  hist[j].seen = [x \in 1..k |-> x]

Emission == phase = "end" => EmitCase([model |-> m, hists |-> hists])
=============================================================================
