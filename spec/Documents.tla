------------------------------ MODULE Documents ------------------------------
(***************************************************************************)
(* JSON documents (properties D04, D05 and D06).                           *)
(*                                                                         *)
(* It adds to the calls of Objects those that write and read documents. A  *)
(* document is a sequence of tokens.  `Doc` says how an object is written  *)
(* and `RV` is a reader of any sequence of tokens, guided by the type: its *)
(* verdict is a value, an error, or nothing if the property doesn't say    *)
(* what should happen (for example null in place of a number).             *)
(***************************************************************************)
EXTENDS Objects

CONSTANT GivenObjects   \* an object whose document is the first one of each history, or nothing

VARIABLES
  doc,   \* tokens of the document that is being prepared
  goal   \* what that document is of: a type and, if it is a list, the attribute that has it

jvars == <<m, steps, phase, bs, os, hs, hist, hists, doc, goal>>

-----------------------------------------------------------------------------
(* Tokens *)
P(c) == [k |-> "p", c |-> c]
Nm(s) == [k |-> "n", s |-> s]           \* name of a field
Key(x) == [k |-> "key", x |-> x]       \* key of a map
Val(t, x) == [k |-> "s", t |-> t, x |-> x]
Str(s) == [k |-> "str", s |-> s]
Null == [k |-> "null"]
Junk(x) == [k |-> "junk", x |-> x]     \* some valid JSON text
Half(x) == [k |-> "half", of |-> x]    \* first part of the text of a token
Num(s) == [k |-> "num", s |-> s]       \* a number that isn't a value of Integer or Long
BadText(x) == [k |-> "bad", x |-> x]       \* text that isn't a value in JSON
BadSize == 16

StringType == Basic("String")

RECURSIVE Separated(_)
Separated(xs) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o <<P(",")>> \o Separated(Tail(xs))
Object(fields) == <<P("{")>> \o Separated(fields) \o <<P("}")>>
Array(items) == <<P("[")>> \o Separated(items) \o <<P("]")>>
Field(name, value) == <<name, P(":")>> \o value

(* The order of the fields doesn't matter.  Documents are written in the order of the attributes,
   rotated and reversed for reading. *)
Turned(xs, r) ==
  LET n == Len(xs)
      y == [i \in 1..n |-> xs[((i - 1 + r) % n) + 1]]
  IN  IF n = 0 THEN xs ELSE IF r % 2 = 1 THEN [i \in 1..n |-> y[n + 1 - i]] ELSE y

KindString(o) == GoName(Ty(o.t)) \o (IF o.k = "L" THEN "List" ELSE "") \o (IF o.link THEN "Link" ELSE "")

(* Options for the documents that are read: the turns, the containers that are written as null and
   if lists of links have kind and href: *)
Plainly == [turn |-> 0, nulls |-> {}, links |-> FALSE]

RECURSIVE DocOf(_, _, _), DocValue(_, _, _)
DocValue(a, v, opt) ==
  CASE v.k = "s" -> <<Val(a.t, v.x)>>
    [] v.k = "l" -> Array([i \in 1..Len(v.xs) |-> DocValue(a, v.xs[i], opt)])
    [] v.k = "m" -> Object(Turned([i \in 1..Len(v.ks) |-> Field(Key(v.ks[i]), DocValue(a, v.xs[i], opt))], opt.turn))
    [] v.k = "o" -> DocOf(v, opt, {})
    [] v.k = "L" ->
         Object(Turned(
           (IF opt.links THEN <<Field(Nm("kind"), <<Str(GoName(Ty(v.t)) \o "ListLink")>>), Field(Nm("href"), <<Val(StringType, 1)>>)>> ELSE <<>>)
           \o <<Field(Nm("items"), Array([i \in 1..Len(v.items) |-> DocOf(v.items[i], opt, {})]))>>, opt.turn))
DocOf(o, opt, nulls) ==
  LET as == Attrs(o.t)
      ident == IF Ty(o.t).kind # "class" THEN <<>>
               ELSE <<Field(Nm("kind"), <<Str(KindString(o))>>)>>
                    \o (IF o.id.p THEN <<Field(Nm("id"), <<Val(StringType, o.id.v.x)>>)>> ELSE <<>>)
                    \o (IF o.href.p THEN <<Field(Nm("href"), <<Val(StringType, o.href.v.x)>>)>> ELSE <<>>)
      RECURSIVE Rest(_)
      Rest(i) ==
        IF i > Len(as) THEN <<>>
        ELSE (IF o.vals[i].p THEN <<Field(Nm(FieldName(as[i])), DocValue(as[i], o.vals[i].v, opt))>>
              ELSE IF i \in nulls THEN <<Field(Nm(FieldName(as[i])), <<Null>>)>> ELSE <<>>)
             \o Rest(i + 1)
  IN  Object(Turned(ident \o Rest(1), opt.turn))

Doc(o) == DocOf(o, Plainly, {})

-----------------------------------------------------------------------------
(* The reader.  Verdicts: *)
Ok(v, i) == [st |-> "ok", v |-> v, i |-> i]
Err == [st |-> "err", v |-> None, i |-> 0]
NullName == [st |-> "err", v |-> [k |-> "nullname"], i |-> 0]
Unsaid == [st |-> "any", v |-> None, i |-> 0]

(* Shapes of the values that are expected: *)
Scalar(t) == [f |-> "scalar", t |-> t]
ObjectOf(t) == [f |-> "obj", t |-> t]
ListOf(e) == [f |-> "list", e |-> e]
MapOf(e) == [f |-> "map", e |-> e]
LinksTo(t) == [f |-> "links", t |-> t]
KindText == [f |-> "kind"]
(* Objects that aren't of a declared type: bodies of messages and errors.  The fields are records with
   the name and the shape: *)
Message(ps) == [f |-> "msg", ps |-> ps]
Anything == [f |-> "skip"]

ElementShape(t) == IF KindOf(V1, t) \in {"basic", "enum"} THEN Scalar(t) ELSE ObjectOf(t.i)
AttrShape(a) ==
  CASE a.form = "plain" -> ElementShape(a.t)
    [] a.form = "map" -> MapOf(ElementShape(a.t))
    [] a.form = "list" /\ a.link /\ KindOf(V1, a.t) = "class" -> LinksTo(a.t.i)
    [] OTHER -> ListOf(ElementShape(a.t))

JsonType(t) ==
  IF ~IsBasic(t) THEN "string"
  ELSE CASE t.b = "Boolean" -> "bool" [] t.b \in {"Integer", "Long", "Float"} -> "number"
         [] t.b \in {"String", "Date"} -> "string" [] t.b = "Interface" -> "any"

ReadScalar(t, tok) ==
  CASE tok.k = "s" /\ tok.t = t -> Ok(S(tok.x), 0)
    [] tok.k = "s" /\ tok.t # t ->
         IF t.b = "Interface" \/ tok.t.b = "Interface" THEN Unsaid
         ELSE IF JsonType(t) # JsonType(tok.t) THEN Err
         ELSE IF t.b = "Date" THEN Err ELSE Unsaid
    [] tok.k \in {"n", "key", "str"} ->
         IF t.b = "Interface" THEN Unsaid ELSE IF JsonType(t) # "string" \/ t.b = "Date" THEN Err ELSE Unsaid
    [] tok.k = "num" -> IF t.b \in {"Float", "Interface"} THEN Unsaid ELSE Err
    [] tok.k \in {"null", "junk"} -> Unsaid
    [] OTHER -> Err

IsString(tok) == tok.k \in {"n", "key", "str"} \/ (tok.k = "s" /\ JsonType(tok.t) = "string")
NameText(tok) == CASE tok.k = "n" -> tok.s [] tok.k = "str" -> tok.s [] OTHER -> ""

FieldIndex(t, s) == LET C == {i \in 1..Len(Attrs(t)) : FieldName(Attrs(t)[i]) = s} IN IF C = {} THEN 0 ELSE CHOOSE i \in C : TRUE

(* What is the value of the field with the given name?  Names whose text isn't known by this
   specification make the verdict unknown. *)
FieldShape(ty, tok) ==
  CASE ty.f = "obj" ->
         (IF Ty(ty.t).kind = "class" /\ NameText(tok) = "kind" THEN KindText
          ELSE IF Ty(ty.t).kind = "class" /\ NameText(tok) \in {"id", "href"} THEN Scalar(StringType)
          ELSE LET i == FieldIndex(ty.t, NameText(tok)) IN IF i = 0 THEN Anything ELSE AttrShape(Attrs(ty.t)[i]))
    [] ty.f = "links" ->
         (IF NameText(tok) = "kind" THEN KindText
          ELSE IF NameText(tok) = "href" THEN Scalar(StringType)
          ELSE IF NameText(tok) = "items" THEN ListOf(ObjectOf(ty.t)) ELSE Anything)
    [] ty.f = "msg" ->
         (LET C == {i \in 1..Len(ty.ps) : ty.ps[i].n = NameText(tok)} IN IF C = {} THEN Anything ELSE ty.ps[CHOOSE i \in C : TRUE].s)
    [] ty.f = "map" -> ty.e
    [] ty.f = "skip" -> Anything

KnownName(ty, tok) == CASE ty.f = "map" -> tok.k = "key" [] ty.f = "skip" -> TRUE [] OTHER -> tok.k \in {"n", "str"}

Before(ks, x) == Cardinality({i \in 1..Len(ks) : ks[i] < x})

Store(ty, acc, tok, v) ==
  CASE ty.f = "obj" ->
         LET s == NameText(tok)
             i == FieldIndex(ty.t, s)
         IN  IF Ty(ty.t).kind = "class" /\ s = "kind" THEN [acc EXCEPT !.link = (v.k = "str" /\ v.s = GoName(Ty(ty.t)) \o "Link")]
             ELSE IF Ty(ty.t).kind = "class" /\ s \in {"id", "href"} THEN [acc EXCEPT ![s] = Maybe(v)]
             ELSE IF i = 0 THEN acc ELSE [acc EXCEPT !.vals[i] = Maybe(v)]
    [] ty.f = "links" ->
         LET s == NameText(tok) IN
         CASE s = "kind" -> [acc EXCEPT !.link = (v.k = "str" /\ v.s = GoName(Ty(ty.t)) \o "ListLink")]
           [] s = "href" -> [acc EXCEPT !.href = IF v.x = 0 THEN Absent ELSE Maybe(v)]   \* lists don't tell empty from absent
           [] s = "items" -> [acc EXCEPT !.items = IF v.k = "z" THEN <<>> ELSE v.xs]
           [] OTHER -> acc
    [] ty.f = "map" ->
         LET n == Before(acc.ks, tok.x) IN
         Mp(SubSeq(acc.ks, 1, n) \o <<tok.x>> \o SubSeq(acc.ks, n + 1, Len(acc.ks)),
            SubSeq(acc.xs, 1, n) \o <<v>> \o SubSeq(acc.xs, n + 1, Len(acc.xs)))
    [] ty.f = "msg" ->
         LET C == {i \in 1..Len(ty.ps) : ty.ps[i].n = NameText(tok)} IN
         IF C = {} THEN acc ELSE [acc EXCEPT !.vals[CHOOSE i \in C : TRUE] = Maybe(v)]
    [] ty.f = "skip" -> acc

Start0(ty) ==
  CASE ty.f = "obj" -> EmptyObject(ty.t) [] ty.f = "links" -> EmptyList(ty.t) [] ty.f = "map" -> Mp(<<>>, <<>>) [] ty.f = "skip" -> None
    [] ty.f = "msg" -> [k |-> "msg", vals |-> [i \in 1..Len(ty.ps) |-> Absent]]

At(toks, i) == IF i > Len(toks) THEN [k |-> "end"] ELSE toks[i]
Is(tok, c) == tok.k = "p" /\ tok.c = c

RECURSIVE RV(_, _, _), RFields(_, _, _, _, _), RItems(_, _, _, _)
RV(ty, toks, i) ==
  LET tok == At(toks, i) IN
  IF tok.k \in {"end", "half", "bad"} THEN Err
  ELSE IF ty.f = "scalar" /\ ty.t.b = "Interface" /\ (Is(tok, "{") \/ Is(tok, "[")) THEN
    LET r == RV(Anything, toks, i) IN IF r.st = "ok" THEN Unsaid ELSE r
  ELSE IF ty.f = "scalar" THEN [ReadScalar(ty.t, tok) EXCEPT !.i = i + 1]
  ELSE IF ty.f = "kind" THEN
    (IF IsString(tok) THEN Ok(tok, i + 1) ELSE IF tok.k \in {"null", "junk"} \/ (tok.k = "s" /\ tok.t.b = "Interface") THEN Unsaid ELSE Err)
  ELSE IF ty.f = "skip" /\ ~(Is(tok, "{") \/ Is(tok, "[")) THEN IF tok.k = "p" THEN Err ELSE Ok(None, i + 1)
  ELSE IF tok.k = "junk" \/ (tok.k = "s" /\ tok.t.b = "Interface") THEN Unsaid
  ELSE IF tok.k = "null" THEN Ok([k |-> "z"], i + 1)
  ELSE IF ty.f = "list" \/ (ty.f = "skip" /\ Is(tok, "[")) THEN
    (IF ~Is(tok, "[") THEN Err
     ELSE IF Is(At(toks, i + 1), "]") THEN Ok(L(<<>>), i + 2)
     ELSE RItems(IF ty.f = "skip" THEN Anything ELSE ty.e, <<>>, toks, i + 1))
  ELSE IF ~Is(tok, "{") THEN Err
  ELSE IF Is(At(toks, i + 1), "}") THEN Ok(Start0(ty), i + 2)
  ELSE RFields(ty, Start0(ty), {}, toks, i + 1)
RItems(e, acc, toks, i) ==
  LET r == RV(e, toks, i) IN
  IF r.st # "ok" THEN r
  ELSE LET x == Append(acc, r.v) IN
       IF Is(At(toks, r.i), "]") THEN Ok(L(x), r.i + 1)
       ELSE IF Is(At(toks, r.i), ",") THEN RItems(e, x, toks, r.i + 1) ELSE Err
RFields(ty, acc, seen, toks, i) ==
  LET name == At(toks, i) IN
  IF name.k = "junk" THEN Unsaid
  ELSE IF name.k = "s" /\ name.t.b = "Interface" THEN Unsaid
  ELSE IF name.k = "null" /\ Is(At(toks, i + 1), ":") THEN NullName
  ELSE IF name.k \in {"end", "half", "bad"} \/ ~IsString(name) \/ ~Is(At(toks, i + 1), ":") THEN Err
  ELSE IF ~KnownName(ty, name) \/ name \in seen THEN Unsaid
  ELSE LET r == RV(FieldShape(ty, name), toks, i + 2) IN
       IF r.st # "ok" THEN r
       ELSE LET x == Store(ty, acc, name, r.v)
                s == IF ty.f = "skip" THEN {} ELSE seen \cup {name}
            IN  IF Is(At(toks, r.i), "}") THEN Ok(x, r.i + 1)
                ELSE IF Is(At(toks, r.i), ",") THEN RFields(ty, x, s, toks, r.i + 1) ELSE Err

ReadShape(ty, toks) == IF At(toks, 1).k = "null" THEN Unsaid ELSE RV(ty, toks, 1)
ReadTop(t, toks) == ReadShape(ObjectOf(t), toks)

(* Goals.  The metadata of the version isn't a type of the model, it only has the version of the server: *)
TypeGoal(t) == [t |-> t, a |-> 0]
AttrGoal(t, a) == [t |-> t, a |-> a]
MetadataGoal == [t |-> 0, a |-> 0]
VersionField == [n |-> "server_version", s |-> Scalar(StringType)]
GoalShape(g) ==
  CASE g = MetadataGoal -> Message(<<VersionField>>)
    [] g.a > 0 -> AttrShape(Attrs(g.t)[g.a])
    [] OTHER -> ObjectOf(g.t)
MetadataDoc(v) == Object(IF v.p THEN <<Field(Nm(VersionField.n), <<Val(StringType, v.v.x)>>)>> ELSE <<>>)

-----------------------------------------------------------------------------
(* Calls *)
ObjectIndexes == {o \in 1..Len(os) : os[o].k = "o"}
Keep == UNCHANGED <<bs, hs>>

(* Lists of links only keep their items when they are written, so those that were read with kind and
   href aren't used again. *)
WriteObject ==
  /\ ObjectIndexes # {}
  /\ \E x \in Some({1, 2}) : \E o \in Some(Outer(ObjectIndexes, x)) : Log([op |-> "marshal", o |-> o, toks |-> Doc(os[o])])
  /\ UNCHANGED <<bs, os, hs, doc, goal>>

RoundTrip ==
  /\ ObjectIndexes # {}
  /\ \E x \in Some({1, 2}) : \E o \in Some(Outer(ObjectIndexes, x)) :
       /\ os' = Append(os, ReadTop(os[o].t, Doc(os[o])).v)
       /\ Log([op |-> "roundtrip", o |-> o, v |-> ReadTop(os[o].t, Doc(os[o])).v])
  /\ UNCHANGED <<bs, hs, doc, goal>>

(* Attributes that are lists also have their own functions: *)
Lists(o) == {i \in 1..Len(os[o].vals) : os[o].vals[i].p /\ os[o].vals[i].v.k = "l"}
ListRoundTrip ==
  LET C == {o \in ObjectIndexes : Lists(o) # {}} IN
  /\ C # {}
  /\ \E x \in Some({1, 2}) : \E o \in Some(Outer(C, x)) : \E i \in Some(Lists(o)) :
       Log([op |-> "listtrip", o |-> o, i |-> i, toks |-> DocValue(Attrs(os[o].t)[i], os[o].vals[i].v, Plainly), v |-> os[o].vals[i].v])
  /\ UNCHANGED <<bs, os, hs, doc, goal>>

Containers(o) == {i \in 1..Len(o.vals) : ~o.vals[i].p /\ (Attrs(o.t)[i].form # "plain" \/ KindOf(V1, Attrs(o.t)[i].t) \in {"class", "struct"})}
Load ==
  /\ ObjectIndexes # {}
  /\ \E x \in Some({1, 2}) : \E o \in Some(Outer(ObjectIndexes, x)) : \E r \in Some(0..5) : \E nulls \in Some(IF Random THEN SUBSET Containers(os[o]) ELSE {{}}) :
     \E links \in Some({TRUE, FALSE}) : \E n \in Some(1..3) :
       /\ doc' = DocOf(os[o], [turn |-> r, links |-> links], IF n = 1 THEN nulls ELSE {})
       /\ goal' = TypeGoal(os[o].t)
  /\ UNCHANGED <<bs, os, hs, hist>>

LoadList ==
  LET C == {o \in ObjectIndexes : Lists(o) # {}} IN
  /\ C # {}
  /\ \E o \in Some(C) : \E i \in Some(Lists(o)) : \E r \in Some(0..5) :
       /\ doc' = DocValue(Attrs(os[o].t)[i], os[o].vals[i].v, [turn |-> r, links |-> FALSE])
       /\ goal' = AttrGoal(os[o].t, i)
  /\ UNCHANGED <<bs, os, hs, hist>>

LoadMetadata ==
  /\ \E x \in Some(0..(PoolSize - 1)) : \E p \in Some({TRUE, TRUE, FALSE}) : doc' = MetadataDoc(IF p THEN Maybe(S(x)) ELSE Absent)
  /\ goal' = MetadataGoal
  /\ UNCHANGED <<bs, os, hs, hist>>

JunkSize == 9
(* Names that are like the names of the fields, but different: *)
Lower(n) == [i \in 1..Len(n) |-> n[i].l]
Alike(a) == {Camel(a.n), Join(Lower(a.n), ""), Join(Lower(a.n), "-"), Snake(a.n) \o "_", "_" \o Snake(a.n), FieldName(a) \o "s"}
AttrsOfModel == UNION {{V1.types[i].attrs[j] : j \in 1..Len(V1.types[i].attrs)} : i \in 1..Len(V1.types)}
KnownNames == {FieldName(a) : a \in AttrsOfModel}
LookAlikes == (UNION {Alike(a) : a \in AttrsOfModel}) \ KnownNames
OddNames == {"", "unknown_field", "KIND", "Id", "Href", "nodecolor", "x"}
Opens == {i \in 1..Len(doc) : Is(doc[i], "{")}
(* Unknown fields, at the beginning or at the end of any object.  Maps don't have unknown fields, and in objects
   some of the names may be known. *)
InMap(i) == At(doc, i + 1).k \in {"key", "end"} \/ Is(At(doc, i + 1), "}")
AddUnknown ==
  LET C == {i \in Opens : ~InMap(i)} IN
  /\ C # {}
  /\ \E i \in Some(C) : \E alike \in Some({TRUE, FALSE}) : \E s \in Some(IF alike /\ LookAlikes # {} THEN LookAlikes ELSE OddNames) : \E x \in Some(1..JunkSize) :
       doc' = SubSeq(doc, 1, i) \o Field(Nm(s), <<Junk(x)>>) \o <<P(",")>> \o SubSeq(doc, i + 1, Len(doc))
  /\ UNCHANGED <<bs, os, hs, hist, goal>>
AddUnknownLast ==
  LET C == {i \in 2..Len(doc) : Is(doc[i], "}") /\ ~Is(doc[i - 1], "{")}
      Depth(i) == Cardinality({j \in 1..i : Is(doc[j], "{")}) - Cardinality({j \in 1..(i - 1) : Is(doc[j], "}")})
      OpensOf(i) == {j \in 1..i : Is(doc[j], "{") /\ Depth(j) = Depth(i)}
      D == {i \in C : OpensOf(i) # {} /\ ~InMap(Max(OpensOf(i)))}
  IN
  /\ D # {}
  /\ \E i \in Some(D) : \E alike \in Some({TRUE, FALSE}) : \E s \in Some(IF alike /\ LookAlikes # {} THEN LookAlikes ELSE OddNames) : \E x \in Some(1..JunkSize) :
       doc' = SubSeq(doc, 1, i - 1) \o <<P(",")>> \o Field(Nm(s), <<Junk(x)>>) \o SubSeq(doc, i, Len(doc))
  /\ UNCHANGED <<bs, os, hs, hist, goal>>

(* Replacement of the text of the kind: *)
OtherKind ==
  LET C == {i \in 1..Len(doc) : doc[i].k = "str"} IN
  /\ C # {}
  /\ \E i \in Some(C) : \E s \in Some({"", "Other", "Link"}) : doc' = [doc EXCEPT ![i] = Str(s)]
  /\ UNCHANGED <<bs, os, hs, hist, goal>>

Wrong == {P("{"), P("}"), P("["), P("]"), P(","), P(":"), Null, Val(Basic("Boolean"), 1), Val(Basic("Integer"), 1), Val(StringType, 1)}
(* In place of names and values, also texts that aren't dates, numbers that don't fit and texts that aren't JSON: *)
WrongValues ==
  Wrong \cup {Val(StringType, 0), Val(Basic("Boolean"), 0), Val(Basic("Date"), 1), Str("2020"), Str("2020-13-01T00:00:00Z"), Str("2020-01-01T00:00:00")}
  \cup {Num("1.5"), Num("-99999999999999999999")} \cup {BadText(x) : x \in 1..BadSize}
Corrupt ==
  /\ doc # <<>>
  /\ \E c \in Some({"drop", "dup", "swap", "cut", "half", "replace", "insert"}) : \E i \in Some(1..Len(doc)) :
     \E w \in Some(IF c = "replace" /\ doc[i].k # "p" THEN WrongValues ELSE IF c \in {"replace", "insert"} THEN Wrong ELSE {Null}) :
       doc' = CASE c = "drop" -> SubSeq(doc, 1, i - 1) \o SubSeq(doc, i + 1, Len(doc))
                [] c = "dup" -> SubSeq(doc, 1, i) \o SubSeq(doc, i, Len(doc))
                [] c = "swap" -> IF i = Len(doc) THEN doc ELSE [doc EXCEPT ![i] = doc[i + 1], ![i + 1] = doc[i]]
                [] c = "cut" -> SubSeq(doc, 1, i - 1)
                [] c = "half" -> IF doc[i].k \in {"p", "junk", "half", "bad"} THEN SubSeq(doc, 1, i - 1) ELSE SubSeq(doc, 1, i - 1) \o <<Half(doc[i])>>
                [] c = "replace" -> [doc EXCEPT ![i] = w]
                [] c = "insert" -> SubSeq(doc, 1, i - 1) \o <<w>> \o SubSeq(doc, i, Len(doc))
  /\ UNCHANGED <<bs, os, hs, hist, goal>>

(* Does a value have containers that were null?  Then they can be absent or empty: *)
RECURSIVE HasNull(_)
HasNull(v) ==
  CASE v.k = "z" -> TRUE
    [] v.k = "l" -> \E i \in 1..Len(v.xs) : HasNull(v.xs[i])
    [] v.k = "m" -> \E i \in 1..Len(v.xs) : HasNull(v.xs[i])
    [] v.k = "L" -> v.link \/ v.href.p \/ \E i \in 1..Len(v.items) : HasNull(v.items[i])
    [] v.k \in {"o", "msg"} -> \E i \in 1..Len(v.vals) : v.vals[i].p /\ HasNull(v.vals[i].v)
    [] OTHER -> FALSE

ReadDoc ==
  /\ doc # <<>>
  /\ LET r == ReadShape(GoalShape(goal), doc)
         keep == r.st = "ok" /\ ~HasNull(r.v) /\ goal = TypeGoal(goal.t) /\ goal # MetadataGoal
     IN
     /\ os' = IF keep THEN Append(os, r.v) ELSE os
     /\ Log([op |-> "read", t |-> goal.t, a |-> goal.a, toks |-> doc, st |-> r.st, v |-> r.v, keep |-> keep,
             again |-> IF goal = MetadataGoal /\ r.st = "ok" THEN MetadataDoc(r.v.vals[1]) ELSE <<>>])
  /\ doc' = <<>>
  /\ UNCHANGED <<bs, hs, goal>>

JDo(k) ==
  CASE k = "marshal" -> WriteObject [] k = "roundtrip" -> RoundTrip [] k = "listtrip" -> ListRoundTrip
    [] k = "load" -> Load [] k = "loadlist" -> LoadList [] k = "loadmetadata" -> LoadMetadata [] k = "unknown" -> AddUnknown [] k = "unknownlast" -> AddUnknownLast [] k = "otherkind" -> OtherKind
    [] k = "corrupt" -> Corrupt [] k = "read" -> ReadDoc
    [] OTHER -> Do(k) /\ UNCHANGED <<doc, goal>>

FirstDoc == IF GivenObjects = <<>> THEN <<>> ELSE DocOf(GivenObjects[1], [turn |-> 0, links |-> TRUE], {})
JInit == Init /\ doc = FirstDoc /\ goal = IF GivenObjects = <<>> THEN MetadataGoal ELSE TypeGoal(GivenObjects[1].t)

(* Without random choices the kinds of the calls are those of OpKinds, in that order: *)
JCall ==
  /\ phase = "use" /\ Count < OpCount
  /\ \E i \in (IF Random THEN Some(1..Len(OpKinds)) ELSE {Count + 1}) :
       IF ObjBuilders = {} THEN New /\ UNCHANGED <<doc, goal>>
       ELSE IF Random THEN (IF ENABLED JDo(OpKinds[i]) THEN JDo(OpKinds[i]) ELSE UNCHANGED <<bs, os, hs, hist, doc, goal>>)
       ELSE JDo(OpKinds[i]) /\ <<hist', doc'>> # <<hist, doc>>
  /\ steps' = steps + 1
  /\ UNCHANGED <<m, phase, hists>>

JNext ==
  \/ (Grow \/ Start) /\ UNCHANGED <<doc, goal>>
  \/ JCall
  \/ Finish /\ doc' = FirstDoc /\ UNCHANGED goal

-----------------------------------------------------------------------------
(* D04: every object comes back from its document, with its fields in any order. *)
Comes(o, opt) == LET r == ReadTop(o.t, DocOf(o, opt, {})) IN r.st = "ok" /\ r.v = o /\ r.i = Len(DocOf(o, opt, {})) + 1
RoundTrips == \A o \in ObjectIndexes : Comes(os[o], Plainly) /\ Comes(os[o], [turn |-> Len(hist) % 6, links |-> FALSE])

(* D06: a proper prefix of a document is never accepted. *)
PrefixesFail ==
  phase = "use" => \A o \in ObjectIndexes : LET d == Doc(os[o]) IN
    \A i \in (IF Len(hist) % 4 = 0 THEN 0..(Len(d) - 1) ELSE {}) : ReadTop(os[o].t, SubSeq(d, 1, i)).st = "err"

(* D06: a document is read like that document followed by something else. *)
RestIsIgnored ==
  \A o \in ObjectIndexes : LET r == ReadTop(os[o].t, Doc(os[o]) \o <<P("}")>>) IN r.st = "ok" /\ r.v = os[o]
=============================================================================
