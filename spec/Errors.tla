------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* Errors (property D07): builders and objects with eight optional fields, *)
(* their messages, their documents and the answers that carry them.        *)
(***************************************************************************)
EXTENDS Documents

CONSTANTS
  NumericIds,    \* values of the identifier that are numbers
  StatusCodes    \* status codes that are given when an error is read

VARIABLES
  eb,   \* builders of errors: sequences of optional values
  es    \* errors

evars == <<m, steps, phase, bs, os, hs, hist, hists, doc, goal, eb, es>>

FieldNames == <<"status", "id", "href", "code", "reason", "operation_id", "details", "timestamp">>
FieldTypes == <<"Integer", "String", "String", "String", "String", "String", "Interface", "Date">>
FieldCount == 8
Tp(i) == Basic(FieldTypes[i])
ErrorShape == Message([i \in 1..FieldCount |-> [n |-> FieldNames[i], s |-> Scalar(Tp(i))]])
NoFields == [i \in 1..FieldCount |-> Absent]

(* The values of each field are different, so the type is that of the field: *)
ErrorDoc(e, turn) ==
  LET given == SelectSeq([i \in 1..FieldCount |-> i], LAMBDA i : e[i].p) IN
  Object(Turned(<<Field(Nm("kind"), <<Str("Error")>>)>> \o
    [y \in 1..Len(given) |-> Field(Nm(FieldNames[given[y]]), <<[k |-> "s", t |-> Tp(given[y]), x |-> e[given[y]].v.x, f |-> given[y]]>>)], turn))

(* The tokens say which field they are of, because that determines their text: *)
Strip(toks) == [i \in 1..Len(toks) |-> IF toks[i].k = "s" THEN [k |-> "s", t |-> toks[i].t, x |-> toks[i].x] ELSE toks[i]]
ReadError(toks) ==
  IF At(toks, 1).k = "null" THEN Unsaid ELSE RV(ErrorShape, Strip(toks), 1)
(* A value that was made for one field and is in another one has another text: *)
Misplaced(toks) == \E i \in 3..Len(toks) : toks[i].k = "s" /\ "f" \in DOMAIN toks[i] /\ toks[i - 2] # Nm(FieldNames[toks[i].f])

-----------------------------------------------------------------------------
Rest == UNCHANGED <<bs, os, hs>>

NewError == eb' = Append(eb, NoFields) /\ Log([op |-> "enew"]) /\ Rest /\ UNCHANGED <<doc, goal, es>>

SetField ==
  /\ eb # <<>>
  /\ \E b \in Some(1..Len(eb)) : \E i \in Some(1..FieldCount) : \E x \in Some(0..(PoolSize - 1)) :
       /\ eb' = [eb EXCEPT ![b][i] = Maybe(S(x))]
       /\ Log([op |-> "eset", b |-> b, i |-> i, x |-> x])
  /\ Rest /\ UNCHANGED <<doc, goal, es>>

(* Any combination of fields at once, in a second builder: *)
Fill ==
  /\ Len(eb) = 1
  /\ \E F \in Some(SUBSET (1..FieldCount)) : \E x \in Some(0..(PoolSize - 1)) :
       /\ eb' = Append(eb, [i \in 1..FieldCount |-> IF i \in F THEN Maybe(S(x)) ELSE Absent])
       /\ Log([op |-> "efill", b |-> 2, f |-> F, x |-> x])
  /\ Rest /\ UNCHANGED <<doc, goal, es>>

(* Only the timestamp can be cleared: *)
ClearField ==
  /\ eb # <<>>
  /\ \E b \in Some(1..Len(eb)) : eb' = [eb EXCEPT ![b][8] = Absent] /\ Log([op |-> "eclear", b |-> b])
  /\ Rest /\ UNCHANGED <<doc, goal, es>>

CopyError ==
  /\ eb # <<>> /\ es # <<>>
  /\ \E b \in Some(1..Len(eb)) : \E e \in Some(1..Len(es)) : eb' = [eb EXCEPT ![b] = es[e]] /\ Log([op |-> "ecopy", b |-> b, e |-> e])
  /\ Rest /\ UNCHANGED <<doc, goal, es>>

CopyNilError ==
  /\ eb # <<>>
  /\ \E b \in Some(1..Len(eb)) : Log([op |-> "ecopynil", b |-> b])
  /\ Rest /\ UNCHANGED <<doc, goal, eb, es>>

BuildError ==
  /\ eb # <<>>
  /\ \E b \in Some(1..Len(eb)) : es' = Append(es, eb[b]) /\ Log([op |-> "ebuild", b |-> b, v |-> eb[b]])
  /\ Rest /\ UNCHANGED <<doc, goal, eb>>

(* Messages *)
T(s) == [k |-> "text", s |-> s]
VV(e, i) == [k |-> "val", i |-> i, x |-> e[i].v.x]
Chunks(e) ==
  (IF e[1].p THEN <<<<T("status is "), VV(e, 1)>>>> ELSE <<>>)
  \o (IF e[2].p THEN <<<<T("identifier is '"), VV(e, 2), T("'")>>>> ELSE <<>>)
  \o (IF e[4].p THEN <<<<T("code is '"), VV(e, 4), T("'")>>>> ELSE <<>>)
  \o (IF e[8].p THEN <<<<T("at '"), VV(e, 8), T("'")>>>> ELSE <<>>)
  \o (IF e[6].p THEN <<<<T("operation identifier is '"), VV(e, 6), T("'")>>>> ELSE <<>>)
RECURSIVE Listed(_)
Listed(cs) ==
  CASE Len(cs) = 0 -> <<>>
    [] Len(cs) = 1 -> cs[1]
    [] Len(cs) = 2 -> cs[1] \o <<T(" and ")>> \o cs[2]
    [] OTHER -> cs[1] \o <<T(", ")>> \o Listed(Tail(cs))
MessageOf(e) ==
  Listed(Chunks(e)) \o (IF e[5].p THEN (IF Chunks(e) = <<>> THEN <<>> ELSE <<T(": ")>>) \o <<VV(e, 5)>> ELSE <<>>)

ShowError ==
  /\ es # <<>>
  /\ \E e \in Some(1..Len(es)) : Log([op |-> "eshow", e |-> e, parts |-> MessageOf(es[e])])
  /\ Rest /\ UNCHANGED <<doc, goal, eb, es>>

WriteError ==
  /\ es # <<>>
  /\ \E e \in Some(1..Len(es)) : Log([op |-> "ewrite", e |-> e, toks |-> ErrorDoc(es[e], 0)])
  /\ Rest /\ UNCHANGED <<doc, goal, eb, es>>

TripError ==
  /\ es # <<>>
  /\ \E e \in Some(1..Len(es)) : es' = Append(es, es[e]) /\ Log([op |-> "etrip", e |-> e, v |-> es[e]])
  /\ Rest /\ UNCHANGED <<doc, goal, eb>>

LoadError ==
  /\ es # <<>>
  /\ \E e \in Some(1..Len(es)) : \E r \in Some(0..7) : doc' = ErrorDoc(es[e], r) /\ goal' = e
  /\ Rest /\ UNCHANGED <<hist, eb, es>>

ReadErrorDoc ==
  /\ doc # <<>>
  /\ \E s \in Some(StatusCodes \cup {0}) :
       LET r == ReadError(doc)
           bad == Misplaced(doc)
           v == IF r.st # "ok" THEN NoFields ELSE IF s = 0 THEN r.v.vals ELSE [r.v.vals EXCEPT ![1] = Maybe(S(0))]
           keep == r.st = "ok" /\ ~bad /\ s = 0
       IN
       /\ es' = IF keep THEN Append(es, v) ELSE es
       /\ Log([op |-> "eread", toks |-> doc, s |-> s, st |-> IF r.st = "ok" /\ bad THEN "any" ELSE IF r.v.k = "nullname" THEN "any" ELSE r.st, v |-> v, keep |-> keep])
  /\ doc' = <<>>
  /\ Rest /\ UNCHANGED <<goal, eb>>

SendIt ==
  /\ es # <<>>
  /\ \E e \in Some(1..Len(es)) :
       Log([op |-> "esend", e |-> e, id |-> es[e][2].v, good |-> es[e][2].p /\ es[e][2].v.x \in NumericIds, toks |-> ErrorDoc(es[e], 0)])
  /\ Rest /\ UNCHANGED <<doc, goal, eb, es>>

SendFixed ==
  /\ \E w \in Some({"NotFound", "MethodNotAllowed", "InternalServerError"}) : Log([op |-> "efixed", w |-> w])
  /\ Rest /\ UNCHANGED <<doc, goal, eb, es>>

ReadNilError == Log([op |-> "enil"]) /\ Rest /\ UNCHANGED <<doc, goal, eb, es>>

-----------------------------------------------------------------------------
EDo(k) ==
  CASE k = "enew" -> NewError [] k = "eset" -> SetField [] k = "efill" -> Fill [] k = "eclear" -> ClearField [] k = "ecopy" -> CopyError
    [] k = "ecopynil" -> CopyNilError [] k = "ebuild" -> BuildError [] k = "eshow" -> ShowError [] k = "ewrite" -> WriteError
    [] k = "etrip" -> TripError [] k = "eload" -> LoadError [] k = "eread" -> ReadErrorDoc [] k = "esend" -> SendIt
    [] k = "efixed" -> SendFixed [] k = "enil" -> ReadNilError
    [] k = "unknown" -> AddUnknown /\ UNCHANGED <<eb, es>>
    [] k = "corrupt" -> Corrupt /\ UNCHANGED <<eb, es>>

EInit == Init /\ doc = <<>> /\ goal = 0 /\ eb = <<>> /\ es = <<>>

ECall ==
  /\ phase = "use" /\ Count < OpCount
  /\ \E i \in Some(1..Len(OpKinds)) :
       IF eb = <<>> THEN NewError
       ELSE IF Random THEN (IF ENABLED EDo(OpKinds[i]) THEN EDo(OpKinds[i]) ELSE UNCHANGED <<bs, os, hs, hist, doc, goal, eb, es>>)
       ELSE EDo(OpKinds[i]) /\ hist' # hist
  /\ steps' = steps + 1
  /\ UNCHANGED <<m, phase, hists>>

EFinish ==
  /\ phase = "use" /\ Count = OpCount
  /\ hists' = Append(hists, [calls |-> hist, errors |-> es])
  /\ hist' = <<>> /\ eb' = <<>> /\ es' = <<>> /\ doc' = <<>>
  /\ steps' = Len(Plan)
  /\ phase' = IF Len(hists') = HistCount THEN "end" ELSE "use"
  /\ UNCHANGED <<m, bs, os, hs, goal>>

ENext ==
  \/ (Grow \/ Start) /\ UNCHANGED <<doc, goal, eb, es>>
  \/ ECall
  \/ EFinish

-----------------------------------------------------------------------------
(* Errors come back from their documents, with the fields in any order: *)
ErrorsComeBack ==
  \A e \in 1..Len(es) : LET r == ReadError(ErrorDoc(es[e], Len(hist) % 8)) IN r.st = "ok" /\ r.v.vals = es[e]

(* The message has each of the parts that are present once, except the link and the details: *)
MessagesAreComplete ==
  \A e \in 1..Len(es) :
    LET ps == MessageOf(es[e])
        shown(i) == {j \in 1..Len(ps) : ps[j].k = "val" /\ ps[j].i = i}
    IN  \A i \in 1..FieldCount : Cardinality(shown(i)) = IF es[e][i].p /\ i \notin {3, 7} THEN 1 ELSE 0

(* The builder follows its history: *)
FieldsFollowHistory ==
  \A b \in 1..Len(eb) : \A i \in 1..FieldCount :
    LET C == {j \in 1..Len(hist) : hist[j].op \in {"eset", "eclear", "ecopy", "efill"} /\ hist[j].b = b
                                     /\ (hist[j].op = "ecopy" \/ (hist[j].op = "efill" /\ i \in hist[j].f) \/ (hist[j].op = "eset" /\ hist[j].i = i) \/ (hist[j].op = "eclear" /\ i = 8))}
        h == hist[Max(C)]
    IN  eb[b][i] = IF C = {} THEN Absent ELSE IF h.op \in {"eset", "efill"} THEN Maybe(S(h.x)) ELSE IF h.op = "eclear" THEN Absent ELSE es[h.e][i]

ErrorsAreImmutable == [][Len(es') = 0 \/ SubSeq(es', 1, Len(es)) = es]_evars
=============================================================================
