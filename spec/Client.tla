------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* Clients, requests and responses (properties H01 and H02).               *)
(*                                                                         *)
(* Clients are made by following locators from the root.  Requests are     *)
(* made by clients, changed by setters, and sent any number of times.  The *)
(* answer of the server is prepared like the documents that are read, with *)
(* mistakes or without them.  `Sent` says what the transport receives and  *)
(* `Result` what the caller gets.                                          *)
(*                                                                         *)
(* Sending isn't atomic: a call can be in flight, waiting for the answer   *)
(* or in the middle of it, while other calls are made.  What it sends is   *)
(* decided when it starts, and what it gets by its own answer.             *)
(***************************************************************************)
EXTENDS Documents

CONSTANTS
  BaseCount,   \* number of different base paths
  IdCount,     \* number of different identifiers
  HeadCount    \* number of different names of headers, the last one is for impersonation

VARIABLES
  cs,   \* clients
  rs,   \* requests
  fl    \* calls started: "out" till the answer comes, "half" in the middle of it, and "done"

cvars == <<m, steps, phase, bs, os, hs, hist, hists, doc, goal, cs, rs, fl>>

Res(r) == V1.resources[r]
MetadataMethod == [kind |-> "Metadata", n |-> <<>>, params |-> <<>>, http |-> "", go |-> ""]
Method(q) == IF q.x = 0 THEN MetadataMethod ELSE Res(q.r).methods[q.x]
VerbOf(q) == IF q.x = 0 THEN "GET" ELSE Verb(Method(q))
Params(q) == Method(q).params

-----------------------------------------------------------------------------
(* Clients *)
Text(s) == [k |-> "text", s |-> s]
Base(x) == [k |-> "base", x |-> x]
Id(x) == [k |-> "id", x |-> x]

Connect ==
  \E x \in Some(1..BaseCount) : \E how \in Some({"version", "service"}) :
    /\ cs' = <<[r |-> 1, up |-> 0, path |-> <<>>, segs |-> <<Base(x)>> \o (IF how = "service" THEN <<Text(V1.ver)>> ELSE <<>>)]>>
    /\ Log([op |-> "connect", x |-> x, how |-> how])
    /\ UNCHANGED <<bs, os, hs, doc, goal, rs>>

Navigate ==
  LET C == {c \in 1..Len(cs) : Res(cs[c].r).locators # <<>>} IN
  /\ C # {}
  /\ \E c \in Some(C) : \E i \in Some(1..Len(Res(cs[c].r).locators)) :
       LET l == Res(cs[c].r).locators[i] IN
       \E x \in Some(IF l.var THEN 1..IdCount ELSE {0}) :
         /\ cs' = Append(cs, [r |-> l.target, up |-> c, path |-> Append(cs[c].path, l),
                              segs |-> Append(cs[c].segs, IF l.var THEN Id(x) ELSE Text(LocatorSegment(l)))])
         /\ Log([op |-> "nav", c |-> c, l |-> i, x |-> x])
  /\ UNCHANGED <<bs, os, hs, doc, goal, rs>>

-----------------------------------------------------------------------------
(* Requests *)
NewRequest(c, x) ==
  LET q == [c |-> c, r |-> cs[c].r, x |-> x] IN
  [c |-> c, r |-> cs[c].r, x |-> x, ins |-> [i \in 1..Len(Params(q)) |-> Absent], extras |-> <<>>, heads |-> <<>>]

MakeRequest ==
  LET C == {c \in 1..Len(cs) : Res(cs[c].r).methods # <<>>} IN
  /\ C # {}
  /\ \E c \in Some(C) : \E x \in Some(1..Len(Res(cs[c].r).methods)) :
       /\ rs' = Append(rs, NewRequest(c, x))
       /\ Log([op |-> "request", c |-> c, x |-> x])
  /\ UNCHANGED <<bs, os, hs, doc, goal, cs>>

(* The root has the metadata: *)
MakeMetadata ==
  /\ Random => rs # <<>> /\ \A j \in 1..Len(rs) : rs[j].x # 0
  /\ rs' = Append(rs, NewRequest(1, 0))
  /\ Log([op |-> "request", c |-> 1, x |-> 0])
  /\ UNCHANGED <<bs, os, hs, doc, goal, cs>>

ObjectsFor(t) == {o \in ObjectIndexes : os[o].t = t.i}
(* Inputs for which there are values: *)
Settables(q) ==
  {i \in 1..Len(Params(q)) :
     LET p == Params(q)[i] IN In(p) /\ (p.form # "plain" \/ KindOf(V1, p.t) \in {"basic", "enum"} \/ ObjectsFor(p.t) # {})}

Put(j, i, v, arg) ==
  /\ rs' = [rs EXCEPT ![j].ins[i] = Maybe(v)]
  /\ Log([op |-> "input", q |-> j, i |-> i, arg |-> arg, v |-> v])

InputFor(j, i) ==
  /\ LET p == Params(rs[j])[i]
         scalar == KindOf(V1, p.t) \in {"basic", "enum"}
         cands == IF scalar THEN {} ELSE ObjectsFor(p.t)
     IN
       CASE p.form = "plain" /\ scalar ->
              \E x \in Some(Pool(p.t)) : Put(j, i, S(x), [k |-> "s", x |-> x])
         [] p.form = "list" /\ scalar ->
              \E n \in Some(0..MaxItems) : \E xs \in Some([1..n -> Pool(p.t)]) :
                Put(j, i, L([y \in 1..n |-> S(xs[y])]), [k |-> "l", xs |-> xs])
         [] p.form = "map" /\ scalar ->
              \E ks \in Some(SUBSET (0..(MaxItems - 1))) : \E xs \in Some([ks -> Pool(p.t)]) :
                LET q == Keys(ks) IN
                Put(j, i, Mp(q, [y \in 1..Len(q) |-> S(xs[q[y]])]), [k |-> "m", ks |-> q, xs |-> [y \in 1..Len(q) |-> xs[q[y]]]])
         [] p.form = "plain" /\ ~scalar ->
              \E o \in Some(cands) : Put(j, i, os[o], [k |-> "o", o |-> o])
         [] p.form = "list" /\ ~scalar ->
              \E n \in Some(0..(IF cands = {} THEN 0 ELSE MaxItems)) : \E xs \in Some([1..n -> cands]) :
                Put(j, i, L([y \in 1..n |-> os[xs[y]]]), [k |-> "lo", os |-> xs])
         [] p.form = "map" /\ ~scalar ->
              \E ks \in Some(IF cands = {} THEN {{}} ELSE SUBSET (0..(MaxItems - 1))) : \E xs \in Some([ks -> cands]) :
                LET q == Keys(ks) IN
                Put(j, i, Mp(q, [y \in 1..Len(q) |-> os[xs[q[y]]]]), [k |-> "mo", ks |-> q, os |-> [y \in 1..Len(q) |-> xs[q[y]]]])
  /\ UNCHANGED <<bs, os, hs, doc, goal, cs>>

Input ==
  LET R == {j \in 1..Len(rs) : Settables(rs[j]) # {}} IN
  /\ R # {}
  /\ \E j \in Some(R) : \E i \in Some(Settables(rs[j])) : InputFor(j, i)

(* Names of the query parameters of the method can also be used for additional parameters: *)
ExtraNames(q) == {"extra", "Filter"} \cup {QueryName(Params(q)[i]) : i \in {y \in 1..Len(Params(q)) : InQuery(V1, Method(q), Params(q)[y])}}
AddExtra ==
  /\ rs # <<>>
  /\ \E j \in Some(1..Len(rs)) : \E n \in Some(ExtraNames(rs[j])) : \E b \in Some({"String", "Boolean", "Date"}) : \E x \in Some(Pool(Basic(b))) :
       /\ rs' = [rs EXCEPT ![j].extras = Append(@, [n |-> n, t |-> Basic(b), x |-> x])]
       /\ Log([op |-> "extra", q |-> j, n |-> n, t |-> Basic(b), x |-> x])
  /\ UNCHANGED <<bs, os, hs, doc, goal, cs>>

AddHead ==
  /\ \E j \in Some(1..Len(rs)) :
       (* The metadata can't be impersonated: *)
       \E n \in Some(1..(IF rs[j].x = 0 THEN HeadCount - 1 ELSE HeadCount)) : \E x \in Some(Pool(StringType)) :
         /\ rs' = [rs EXCEPT ![j].heads = Append(@, [n |-> n, x |-> x])]
         /\ Log([op |-> "head", q |-> j, n |-> n, x |-> x])
  /\ UNCHANGED <<bs, os, hs, doc, goal, cs>>

-----------------------------------------------------------------------------
(* What is sent *)
BodyIdx(q) == {i \in 1..Len(Params(q)) : InBody(V1, Method(q), Params(q)[i])}
QueryIdx(q) == {i \in 1..Len(Params(q)) : InQuery(V1, Method(q), Params(q)[i])}

(* Methods whose body is the value of a parameter need it: *)
Sendable(q) == Method(q).kind = "Action" \/ \A i \in BodyIdx(q) : q.ins[i].p

(* A step towards a request that can be sent: makes or builds an object for its body, or gives it. *)
Want ==
  LET R == {j \in 1..Len(rs) : ~Sendable(rs[j])} IN
  /\ R # {}
  /\ \E j \in Some(R) : \E i \in Some({x \in BodyIdx(rs[j]) : ~rs[j].ins[x].p}) :
       LET t == Params(rs[j])[i].t IN
       IF i \in Settables(rs[j]) THEN InputFor(j, i)
       ELSE LET B == Buildable(BuildersOf("o", t.i)) IN
            /\ IF B # {}
               THEN \E b \in Some(B) :
                      /\ os' = Append(os, bs[b].o)
                      /\ Log([op |-> "build", b |-> b, v |-> bs[b].o])
                      /\ UNCHANGED bs
               ELSE /\ bs' = Append(bs, NewBuilder(EmptyObject(t.i)))
                    /\ Log([op |-> "new", t |-> t.i])
                    /\ UNCHANGED os
            /\ UNCHANGED <<hs, doc, goal, cs, rs>>

NoBody == [has |-> FALSE, toks |-> <<>>]
BodyOf(q) ==
  LET B == BodyIdx(q)
      given == SelectSeq([i \in 1..Len(Params(q)) |-> i], LAMBDA i : i \in B /\ q.ins[i].p)
  IN
  IF B = {} THEN NoBody
  ELSE IF Method(q).kind = "Action" THEN
    [has |-> TRUE, toks |-> Object([y \in 1..Len(given) |->
       LET p == Params(q)[given[y]] IN Field(Nm(BodyName(p)), DocValue(p, q.ins[given[y]].v, Plainly))])]
  ELSE LET i == CHOOSE i \in B : TRUE IN [has |-> TRUE, toks |-> DocValue(Params(q)[i], q.ins[i].v, Plainly)]

QueryOf(q) ==
  LET given == SelectSeq([i \in 1..Len(Params(q)) |-> i], LAMBDA i : i \in QueryIdx(q) /\ q.ins[i].p) IN
  [y \in 1..Len(given) |-> [n |-> QueryName(Params(q)[given[y]]), t |-> Params(q)[given[y]].t, x |-> q.ins[given[y]].v.x]]

SegsOf(q) == cs[q.c].segs \o (IF q.x # 0 /\ MethodSegment(Method(q)) # "" THEN <<Text(MethodSegment(Method(q)))>> ELSE <<>>)

Sent(q) == [verb |-> VerbOf(q), segs |-> SegsOf(q), query |-> QueryOf(q), extras |-> q.extras, heads |-> q.heads, body |-> BodyOf(q)]

-----------------------------------------------------------------------------
(* Answers *)
ErrorFields == <<[n |-> "status", s |-> Scalar(Basic("Integer"))], [n |-> "id", s |-> Scalar(StringType)],
                 [n |-> "href", s |-> Scalar(StringType)], [n |-> "code", s |-> Scalar(StringType)],
                 [n |-> "reason", s |-> Scalar(StringType)], [n |-> "operation_id", s |-> Scalar(StringType)],
                 [n |-> "details", s |-> Scalar(Basic("Interface"))], [n |-> "timestamp", s |-> Scalar(Basic("Date"))]>>
ErrorShape == Message(ErrorFields)

ParamShape(p) ==
  CASE p.form = "plain" -> ElementShape(p.t)
    [] p.form = "map" -> MapOf(ElementShape(p.t))
    [] p.form = "list" -> ListOf(ElementShape(p.t))

OutIdx(q) == SelectSeq([i \in 1..Len(Params(q)) |-> i], LAMBDA i : Out(Params(q)[i]))
IsMessage(q) == Method(q).kind \in {"Action", "List", "Search", "Metadata"}
OutShape(q) ==
  IF q.x = 0 THEN Message(<<[n |-> "server_version", s |-> Scalar(StringType)]>>)
  ELSE IF IsMessage(q)
  THEN Message([y \in 1..Len(OutIdx(q)) |-> LET p == Params(q)[OutIdx(q)[y]] IN [n |-> BodyName(p), s |-> ParamShape(p)]])
  ELSE ParamShape(Params(q)[OutIdx(q)[1]])
HasOutputs(q) == q.x = 0 \/ OutIdx(q) # <<>>

(* Random values for outputs.  They are built with recursion because functions are evaluated lazily, so
   that the random choices could be made more than once: *)
RandomObject(t) == LET C == ObjectsFor(t) IN IF C = {} THEN EmptyObject(t.i) ELSE os[RandomElement(C)]
RandomScalar(t) == LET x == RandomElement(Pool(t)) IN S(x)
RandomElementOf(t) == IF KindOf(V1, t) \in {"basic", "enum"} THEN RandomScalar(t) ELSE RandomObject(t)
RECURSIVE RandomItems(_, _)
RandomItems(t, n) == IF n = 0 THEN <<>> ELSE <<RandomElementOf(t)>> \o RandomItems(t, n - 1)
RandomMap(t, ks) == Mp(ks, RandomItems(t, Len(ks)))
RandomValue(p) ==
  CASE p.form = "plain" -> RandomElementOf(p.t)
    [] p.form = "list" -> L(RandomItems(p.t, RandomElement(0..MaxItems)))
    [] p.form = "map" -> RandomMap(p.t, Keys(RandomElement(SUBSET (0..(MaxItems - 1)))))
RECURSIVE RandomValues(_, _)
RandomValues(ps, chosen) ==
  IF ps = <<>> THEN <<>>
  ELSE RandomValues(SubSeq(ps, 1, Len(ps) - 1), chosen) \o <<IF Len(ps) \in chosen THEN Maybe(RandomValue(ps[Len(ps)])) ELSE Absent>>

MetadataParam == [n |-> <<W("server", "Server"), W("version", "Version")>>, form |-> "plain", t |-> StringType, json |-> ""]
OutParams(q) == IF q.x = 0 THEN <<MetadataParam>> ELSE [y \in 1..Len(OutIdx(q)) |-> Params(q)[OutIdx(q)[y]]]

(* Documents with some of the given fields: *)
Fields(ps, vals) ==
  LET given == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : vals[i].p) IN
  [y \in 1..Len(given) |-> Field(Nm(BodyName(ps[given[y]])), DocValue(ps[given[y]], vals[given[y]].v, Plainly))]

(* Only with random choices. *)
Prepare ==
  /\ rs # <<>>
  /\ \E j \in Some({y \in 1..Len(rs) : Sendable(rs[y])}) :
     \E present \in Some(SUBSET (1..Len(OutParams(rs[j])))) : \E all \in Some(1..2) :
     \E vals \in {RandomValues(OutParams(rs[j]), IF all = 1 \/ ~IsMessage(rs[j]) THEN 1..Len(OutParams(rs[j])) ELSE present)} :
     \E r \in Some(0..5) :
       LET q == rs[j]
           ps == OutParams(q)
           kind == IF r = 3 THEN <<Field(Nm("kind"), <<Str("List")>>)>> ELSE <<>>
           d == IF ~HasOutputs(q) THEN <<P("{"), P("}")>>
                ELSE IF IsMessage(q) THEN Object(Turned(kind \o Fields(ps, vals), r))
                ELSE DocValue(ps[1], vals[1].v, [turn |-> r, links |-> FALSE])
       IN
       /\ doc' = d
       /\ goal' = [q |-> j, vals |-> vals, doc |-> d]
  /\ UNCHANGED <<bs, os, hs, hist, cs, rs>>

ErrorParams == [i \in 1..8 |-> [n |-> <<W(ErrorFields[i].n, "")>>, form |-> "plain", t |-> ErrorFields[i].s.t, json |-> ""]]
PrepareError ==
  /\ rs # <<>>
  /\ \E j \in Some({y \in 1..Len(rs) : Sendable(rs[y])}) :
     \E present \in Some(SUBSET (1..8)) : \E r \in Some(0..5) :
     \E vals \in {RandomValues(ErrorParams, present)} :
       LET d == Object(Turned(<<Field(Nm("kind"), <<Str("Error")>>)>> \o Fields(ErrorParams, vals), r)) IN
       /\ doc' = d
       /\ goal' = [q |-> 0 - j, vals |-> vals, doc |-> d]
  /\ UNCHANGED <<bs, os, hs, hist, cs, rs>>

-----------------------------------------------------------------------------
(* What the caller gets *)
NoValues(q) == [i \in 1..Len(OutParams(q)) |-> Absent]
Good(vals) == [st |-> "ok", vals |-> vals]
Bad == [st |-> "err", vals |-> <<>>]
Any1 == [st |-> "any", vals |-> <<>>]

(* The verdict of the reader as a result: *)
Judge(q, r) ==
  CASE r.st = "err" /\ r.v.k = "nullname" -> Any1
    [] r.st = "err" -> Bad
    [] r.st = "any" -> Any1
    [] r.st = "ok" -> IF r.v.k = "msg" THEN Good(r.v.vals) ELSE Good(<<Maybe(r.v)>>)

Result(q, a) ==
  CASE a.kind = "fail" -> [st |-> "fail", vals |-> <<>>]
    [] a.kind = "empty" -> Good(NoValues(q))
    [] a.kind = "broken" /\ a.toks = <<>> -> IF a.status >= 400 \/ HasOutputs(q) THEN Bad ELSE Any1
    [] a.status >= 400 ->
         LET r == Judge(q, IF At(a.toks, 1).k = "null" THEN Unsaid ELSE RV(ErrorShape, a.toks, 1)) IN
         IF r.st = "ok" THEN (IF a.kind = "broken" THEN Any1 ELSE [r EXCEPT !.st = "error"]) ELSE r
    [] ~HasOutputs(q) -> IF a.kind = "broken" THEN Any1 ELSE Good(NoValues(q))
    [] OTHER ->
         LET r == Judge(q, IF At(a.toks, 1).k = "null" THEN Unsaid ELSE RV(OutShape(q), a.toks, 1)) IN
         IF r.st = "ok" /\ a.kind = "broken" THEN Any1 ELSE r

OkStatuses == {200, 201, 202, 204, 302, 399}
BadStatuses == {400, 404, 409, 500, 503}

SendAs(how) ==
  LET R == IF doc # <<>> THEN {IF goal.q > 0 THEN goal.q ELSE 0 - goal.q} ELSE {y \in 1..Len(rs) : Sendable(rs[y])} IN
  /\ R # {}
  /\ \E j \in Some(R) : \E n \in Some(IF Random THEN 1..6 ELSE {1}) :
     \E status \in Some(IF doc # <<>> /\ n < 6 THEN (IF goal.q > 0 THEN OkStatuses ELSE BadStatuses) ELSE OkStatuses \cup BadStatuses) :
     \E k \in Some(IF doc = <<>> THEN {"fail", "empty", "broken"} ELSE IF n = 5 THEN {"broken"} ELSE {"body"}) :
     \E h \in Some(0..2) : \E ctx \in Some(IF Random THEN {TRUE, FALSE} ELSE {FALSE}) :
       LET a == [kind |-> k, status |-> status, head |-> h, toks |-> doc] IN
       Log([op |-> how, q |-> j, ctx |-> ctx, ans |-> a, sent |-> Sent(rs[j]), ins |-> rs[j].ins, res |-> Result(rs[j], a)])
  /\ doc' = <<>> /\ goal' = [q |-> 0]
  /\ UNCHANGED <<bs, os, hs, cs, rs>>

Send == SendAs("send") /\ UNCHANGED fl

InFlight == {f \in 1..Len(fl) : fl[f] # "done"}
MaxFlights == 4
StartSend ==
  /\ Cardinality(InFlight) < MaxFlights
  /\ SendAs("start")
  /\ fl' = Append(fl, "out")

(* A call advances, without changing anything else: *)
Advance ==
  /\ InFlight # {}
  /\ \E f \in Some(InFlight) :
       /\ fl' = [fl EXCEPT ![f] = IF @ = "out" THEN "half" ELSE "done"]
       /\ Log([op |-> IF fl[f] = "out" THEN "answer" ELSE "finish", f |-> f])
  /\ UNCHANGED <<bs, os, hs, doc, goal, cs, rs>>

-----------------------------------------------------------------------------
Atomic(k) == k \notin {"send", "start", "advance"}
CDo(k) ==
  /\ Atomic(k) => UNCHANGED fl
  /\ CASE k = "nav" -> Navigate [] k = "request" -> MakeRequest [] k = "metadata" -> MakeMetadata [] k = "input" -> Input
    [] k = "extra" -> AddExtra [] k = "head" -> AddHead [] k = "prepare" -> Prepare [] k = "error" -> PrepareError [] k = "send" -> Send
    [] k = "want" -> Want [] k = "start" -> StartSend [] k = "advance" -> Advance
    [] OTHER -> JDo(k) /\ UNCHANGED <<cs, rs>>

CInit == Init /\ doc = <<>> /\ goal = [q |-> 0] /\ cs = <<>> /\ rs = <<>> /\ fl = <<>>

Noop == UNCHANGED <<bs, os, hs, hist, doc, goal, cs, rs, fl>>

CCall ==
  /\ phase = "use" /\ Count < OpCount
  /\ \E i \in Some(1..Len(OpKinds)) :
       IF cs = <<>> THEN Connect /\ UNCHANGED fl
       ELSE IF Random THEN (IF ENABLED CDo(OpKinds[i]) THEN CDo(OpKinds[i]) ELSE Noop)
       ELSE CDo(OpKinds[i]) /\ hist' # hist
  /\ steps' = steps + 1
  /\ UNCHANGED <<m, phase, hists>>

CNext ==
  \/ (Grow \/ Start) /\ UNCHANGED <<doc, goal, cs, rs, fl>>
  \/ CCall
  \/ Finish /\ doc' = <<>> /\ goal' = [q |-> 0] /\ cs' = <<>> /\ rs' = <<>> /\ fl' = <<>>

-----------------------------------------------------------------------------
(* H01: clients are always at the end of a path of the model, and their URL is the one of the path. *)
ClientsFollowPaths ==
  \A c \in 1..Len(cs) :
    LET p == cs[c].path
        n == Len(cs[c].segs) - Len(p)
        u == UrlPath(V1, p)
    IN  /\ p \in Paths(V1) /\ Target(p) = cs[c].r
        /\ \A i \in 1..Len(p) : LET s == cs[c].segs[n + i] IN IF p[i].var THEN s.k = "id" ELSE s = Text(u[3 + i])

(* H01: what is sent is determined by the calls made on that request before, and nothing else. *)
LastInput(j, q, i) ==
  LET C == {k \in 1..(j - 1) : hist[k].op = "input" /\ hist[k].q = q /\ hist[k].i = i} IN IF C = {} THEN 0 ELSE Max(C)
SentFollowsHistory ==
  \A j \in 1..Len(hist) : hist[j].op \in {"send", "start"} =>
    LET q == hist[j].q IN
    /\ \A i \in 1..Len(hist[j].ins) :
         LET k == LastInput(j, q, i) IN hist[j].ins[i] = IF k = 0 THEN Absent ELSE Maybe(hist[k].v)
    /\ LET es == SelectSeq(SubSeq(hist, 1, j - 1), LAMBDA x : x.op = "extra" /\ x.q = q) IN
       hist[j].sent.extras = [y \in 1..Len(es) |-> [n |-> es[y].n, t |-> es[y].t, x |-> es[y].x]]
    /\ LET hh == SelectSeq(SubSeq(hist, 1, j - 1), LAMBDA x : x.op = "head" /\ x.q = q) IN
       hist[j].sent.heads = [y \in 1..Len(hh) |-> [n |-> hh[y].n, x |-> hh[y].x]]

(* H01: the verb and the body agree with what the OpenAPI specification says (see Meta). *)
SentAgreesWithOperations ==
  \A j \in 1..Len(hist) : hist[j].op \in {"send", "start"} =>
    LET q == rs[hist[j].q]
        o == IF q.x = 0 THEN Metadata(V1) ELSE Operation(V1, cs[q.c].path, Method(q))
    IN  /\ o.verb = hist[j].sent.verb
        /\ o.body.k = "none" <=> ~hist[j].sent.body.has
        /\ {hist[j].sent.query[i].n : i \in 1..Len(hist[j].sent.query)} \subseteq {o.query[i].n : i \in 1..Len(o.query)}

(* H01 and H02: the flights are the calls that were started, and each one is answered once and ends once. *)
Started == SelectSeq([j \in 1..Len(hist) |-> j], LAMBDA j : hist[j].op = "start")
FlightsFollowHistory ==
  /\ Len(Started) = Len(fl)
  /\ \A f \in 1..Len(fl) :
       LET A == {j \in 1..Len(hist) : hist[j].op = "answer" /\ hist[j].f = f}
           E == {j \in 1..Len(hist) : hist[j].op = "finish" /\ hist[j].f = f}
       IN  /\ Cardinality(A) = (IF fl[f] = "out" THEN 0 ELSE 1) /\ Cardinality(E) = (IF fl[f] = "done" THEN 1 ELSE 0)
           /\ \A a \in A : a > Started[f]
           /\ \A e \in E : \A a \in A : e > a

(* H02: a document without mistakes gives the values that it was made of. *)
AnswersComeBack ==
  (doc # <<>> /\ doc = goal.doc) =>
    IF goal.q > 0
    THEN HasOutputs(rs[goal.q]) => LET r == Judge(rs[goal.q], RV(OutShape(rs[goal.q]), doc, 1)) IN r.st = "ok" /\ r.vals = goal.vals
    ELSE LET r == Judge(rs[0 - goal.q], RV(ErrorShape, doc, 1)) IN r.st = "ok" /\ r.vals = goal.vals
=============================================================================
