-------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* Query parameters and headers in the hands of servers (property H08).    *)
(*                                                                         *)
(* Clients put typed values into sets of query parameters and headers,     *)
(* copy the sets, and servers read the values back and split paths into    *)
(* segments.  The state is a collection of sets, each with a sequence of   *)
(* values per name.  A value is either a typed one, put by a client made   *)
(* by the generator, or any text, put by somebody else.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Emit

CONSTANTS
  Random,      \* whether to choose at random
  NameCount,   \* how many names of parameters and headers are used
  SameHeader,  \* SameHeader[i]: the first name that, as name of a header, is the same as name i
  PoolSize,    \* how many typed values there are of each type
  Texts,       \* Texts[i][t]: whether text i is a value of type t: "ok", "bad", or "any" if that isn't said
  Parts,       \* how many different segments there are
  MaxParts,    \* how many segments paths have
  OpKinds,     \* the operations, as a sequence
  OpCount,     \* how many operations each history has
  HistCount    \* how many histories are made

VARIABLES
  qs,     \* the sets: [kind, nil, vals], where nil says that the set may be nil, so that only clients can put values
  hist,   \* the operations done, and what was seen
  hists   \* the finished histories

vars == <<qs, hist, hists>>

Some(S) == IF Random /\ S # {} THEN {RandomElement(S)} ELSE S

ParamNames == 1..NameCount
Readable == {"Integer", "Float", "String", "Boolean", "Date"}
Writable == Readable \cup {"Long"}
Typed(t, x) == [k |-> "val", t |-> t, x |-> x]
Text(i) == [k |-> "text", t |-> "", x |-> i]
AllTyped == {Typed(t, x) : t \in Writable, x \in 0..(PoolSize - 1)}
AllTexts == {Text(i) : i \in 1..Len(Texts)}

(* Whether a value can be read with a type: *)
Readability(v, t) ==
  IF v.k = "text" THEN Texts[v.x][t]
  ELSE IF v.t = t \/ (v.t = "Long" /\ t = "Integer") THEN "ok"
  ELSE "any"

NoResult == [st |-> "nil"]
Reading(s, t) ==
  IF s = <<>> THEN NoResult
  ELSE IF Len(s) > 1 THEN [st |-> "err"]
  ELSE LET r == Readability(s[1], t) IN
       IF r = "ok" THEN [st |-> "ok", v |-> s[1]] ELSE IF r = "bad" THEN [st |-> "err"] ELSE [st |-> "any"]

Nothing == [n \in ParamNames |-> <<>>]
(* Names of headers don't depend on the case: *)
Key(q, n) == IF q.kind = "header" THEN SameHeader[n] ELSE n

Log(e) == hist' = Append(hist, e)
Queries == {i \in 1..Len(qs) : qs[i].kind = "query"}
Headers == {i \in 1..Len(qs) : qs[i].kind = "header"}
Put(i, n, v) == qs' = [qs EXCEPT ![i].nil = FALSE, ![i].vals[Key(qs[i], n)] = Append(@, v)]

-----------------------------------------------------------------------------
New ==
  \E k \in Some({"query", "header"}) : \E x \in Some(BOOLEAN) :
    /\ qs' = Append(qs, [kind |-> k, nil |-> x, vals |-> Nothing])
    /\ Log([op |-> "new", q |-> Len(qs) + 1, kind |-> k, nil |-> x])

(* What clients do: *)
Add ==
  /\ Queries # {}
  /\ \E i \in Some(Queries) : \E n \in Some(ParamNames) : \E v \in Some(AllTyped) :
       Put(i, n, v) /\ Log([op |-> "add", q |-> i, n |-> n, v |-> v])

AddHeader ==
  /\ Headers # {}
  /\ \E i \in Some(Headers) : \E n \in Some(ParamNames) : \E t \in Some({"Integer", "String", "Boolean", "Long"}) : \E x \in Some(0..(PoolSize - 1)) :
       Put(i, n, Typed(t, x)) /\ Log([op |-> "head", q |-> i, n |-> n, v |-> Typed(t, x)])

(* The first name is that of the header for impersonation: *)
Impersonate ==
  /\ Headers # {}
  /\ \E i \in Some(Headers) : \E x \in Some(0..(PoolSize - 1)) :
       Put(i, 1, Typed("String", x)) /\ Log([op |-> "impersonate", q |-> i, n |-> 1, v |-> Typed("String", x)])

(* What others do: *)
PutText ==
  LET Q == {i \in Queries : ~qs[i].nil} IN
  /\ Q # {}
  /\ \E i \in Some(Q) : \E n \in Some(ParamNames) : \E v \in Some(AllTexts) :
       Put(i, n, v) /\ Log([op |-> "text", q |-> i, n |-> n, v |-> v])

Remove ==
  LET Q == {i \in 1..Len(qs) : \E n \in ParamNames : qs[i].vals[n] # <<>>} IN
  /\ Q # {}
  /\ \E i \in Some(Q) : \E n \in Some({x \in ParamNames : qs[i].vals[x] # <<>>}) :
       qs' = [qs EXCEPT ![i].vals[n] = <<>>] /\ Log([op |-> "remove", q |-> i, n |-> n])

(* Changes a value in its place, which could be shared with other sets: *)
Change ==
  LET Q == {i \in 1..Len(qs) : \E n \in ParamNames : qs[i].vals[n] # <<>>} IN
  /\ Q # {}
  /\ \E i \in Some(Q) : \E n \in Some({x \in ParamNames : qs[i].vals[x] # <<>>}) : \E j \in Some(1..Len(qs[i].vals[n])) : \E v \in Some(AllTexts) :
       qs' = [qs EXCEPT ![i].vals[n][j] = v] /\ Log([op |-> "change", q |-> i, n |-> n, j |-> j, v |-> v])

Copy ==
  /\ qs # <<>>
  /\ \E i \in Some(1..Len(qs)) :
       LET c == [qs[i] EXCEPT !.nil = qs[i].vals = Nothing] IN
       qs' = Append(qs, c) /\ Log([op |-> "copy", q |-> Len(qs) + 1, from |-> i, kind |-> c.kind])

(* What servers do: *)
Parse ==
  /\ Queries # {}
  /\ \E i \in Some(Queries) : \E n \in Some(ParamNames) : \E t \in Some(Readable) :
       Log([op |-> "parse", q |-> i, n |-> n, t |-> t, res |-> Reading(qs[i].vals[n], t)])
  /\ UNCHANGED qs

Look ==
  /\ qs # <<>>
  /\ \E i \in Some(1..Len(qs)) : Log([op |-> "look", q |-> i, vals |-> qs[i].vals])
  /\ UNCHANGED qs

Segments ==
  /\ \E before \in Some(0..3) : \E after \in Some(0..3) : \E l \in Some(1..MaxParts) : \E s \in Some([1..l -> 1..Parts]) :
       Log([op |-> "segments", before |-> before, after |-> after, parts |-> s])
  /\ UNCHANGED qs

(* Pointers to fresh copies of values: *)
Pointer ==
  /\ \E v \in Some({x \in AllTyped : x.t \in Readable}) : Log([op |-> "pointer", v |-> v])
  /\ UNCHANGED qs

-----------------------------------------------------------------------------
Do(k) ==
  CASE k = "new" -> New [] k = "add" -> Add [] k = "head" -> AddHeader [] k = "impersonate" -> Impersonate [] k = "text" -> PutText
    [] k = "remove" -> Remove [] k = "change" -> Change [] k = "copy" -> Copy [] k = "parse" -> Parse [] k = "look" -> Look
    [] k = "segments" -> Segments [] k = "pointer" -> Pointer

Init == qs = <<>> /\ hist = <<>> /\ hists = <<>>

Call ==
  /\ Len(hists) < HistCount /\ Len(hist) < OpCount
  /\ IF qs = <<>> THEN New
     ELSE \E i \in Some(1..Len(OpKinds)) :
       IF Random THEN (IF ENABLED Do(OpKinds[i]) THEN Do(OpKinds[i]) ELSE New) ELSE Do(OpKinds[i])
  /\ UNCHANGED hists

Finish ==
  /\ Len(hists) < HistCount /\ Len(hist) = OpCount
  /\ hists' = Append(hists, [calls |-> hist, sets |-> qs])
  /\ hist' = <<>> /\ qs' = <<>>

Next == Call \/ Finish

-----------------------------------------------------------------------------
(* The values of a name are those that the history says, so copies are the same as what was copied when the copy was made,
   and independent of it afterwards: *)
RECURSIVE Told(_, _, _)
Told(i, n, j) ==
  IF j = 0 THEN <<>>
  ELSE LET e == hist[j]
           mine == "q" \in DOMAIN e /\ e.q = i
           named == mine /\ "n" \in DOMAIN e /\ n = (IF qs[i].kind = "header" THEN SameHeader[e.n] ELSE e.n)
       IN  CASE mine /\ e.op = "new" -> <<>>
             [] mine /\ e.op = "copy" -> Told(e.from, n, j - 1)
             [] named /\ e.op \in {"add", "head", "impersonate", "text"} -> Append(Told(i, n, j - 1), e.v)
             [] named /\ e.op = "remove" -> <<>>
             [] named /\ e.op = "change" -> [Told(i, n, j - 1) EXCEPT ![e.j] = e.v]
             [] OTHER -> Told(i, n, j - 1)
SetsFollowHistory == \A i \in 1..Len(qs) : \A n \in ParamNames : qs[i].vals[n] = Told(i, n, Len(hist))

(* A value that was put by a client, and is alone, is read back with its type: *)
ValuesComeBack ==
  \A i \in Queries : \A n \in ParamNames :
    (Len(qs[i].vals[n]) = 1 /\ qs[i].vals[n][1].k = "val" /\ qs[i].vals[n][1].t \in Readable)
      => Reading(qs[i].vals[n], qs[i].vals[n][1].t) = [st |-> "ok", v |-> qs[i].vals[n][1]]

(* Nothing is read from several values, and something is read or reported from one: *)
NothingIsLost ==
  \A j \in 1..Len(hist) : hist[j].op = "parse" =>
    LET s == Told(hist[j].q, hist[j].n, j - 1) IN
    CASE s = <<>> -> hist[j].res.st = "nil"
      [] Len(s) = 1 -> hist[j].res.st # "nil"
      [] OTHER -> hist[j].res.st = "err"

Emission == Len(hists) = HistCount => EmitCase([hists |-> hists])
=============================================================================
