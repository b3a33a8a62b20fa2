-------------------------------- MODULE Poll --------------------------------
(***************************************************************************)
(* Polling (property H07).                                                 *)
(*                                                                         *)
(* A poll request is a request of the `Get` method together with an        *)
(* interval, expected statuses and predicates.  When it is started there   *)
(* is a clock: attempts are made at certain times, answers arrive later or *)
(* never, the context has a deadline and may be cancelled.  The times of   *)
(* attempts and answers are even, those of deadlines and cancellations are *)
(* odd, so that nothing depends on the order of simultaneous events.       *)
(***************************************************************************)
EXTENDS Client

CONSTANTS
  Intervals,   \* intervals that are given, zero and negative included
  Timeouts,    \* deadlines, odd numbers, zero if there is none
  Cancels,     \* times of cancellation, odd numbers, zero if there is none
  Delays,      \* times that the server takes to answer
  Expected,    \* statuses that are given as expected ones
  Statuses,    \* statuses of the answers
  Kinds,       \* kinds of answers: good, empty, fail, broken, mistake
  Patience,    \* how many attempts have answers that aren't the expected ones, at least
  MaxPreds,    \* how many predicates are added
  MaxExpected  \* how many statuses are added

VARIABLES
  pq,    \* the configuration of each of the requests
  run    \* the running poll

pvars == <<m, steps, phase, bs, os, hs, hist, hists, doc, goal, cs, rs, fl, pq, run>>

Idle == [on |-> FALSE]
OnlyPoll == UNCHANGED <<bs, os, hs, doc, goal, cs, fl>>

GetMethods(r) == {x \in 1..Len(Res(r).methods) : Res(r).methods[x].kind = "Get"}

MakePoll ==
  LET C == {c \in 1..Len(cs) : GetMethods(cs[c].r) # {}} IN
  /\ C # {}
  /\ \E c \in Some(C) : \E x \in Some(GetMethods(cs[c].r)) :
       /\ rs' = Append(rs, NewRequest(c, x))
       /\ pq' = Append(pq, [interval |-> 0, statuses |-> <<>>, preds |-> 0])
       /\ Log([op |-> "newpoll", c |-> c, x |-> x])
  /\ OnlyPoll /\ UNCHANGED run

SetInterval ==
  /\ rs # <<>>
  /\ \E j \in Some(1..Len(rs)) : \E x \in Some(Intervals) :
       /\ pq' = [pq EXCEPT ![j].interval = x]
       /\ Log([op |-> "interval", q |-> j, x |-> x])
  /\ OnlyPoll /\ UNCHANGED <<rs, run>>

AddStatus ==
  LET J == {j \in 1..Len(rs) : Len(pq[j].statuses) < MaxExpected} IN
  /\ J # {}
  /\ \E j \in Some(J) : \E x \in Some(Expected) :
       /\ pq' = [pq EXCEPT ![j].statuses = Append(@, x)]
       /\ Log([op |-> "status", q |-> j, x |-> x])
  /\ OnlyPoll /\ UNCHANGED <<rs, run>>

AddPredicate ==
  LET J == {j \in 1..Len(rs) : pq[j].preds < MaxPreds} IN
  /\ J # {}
  /\ \E j \in Some(J) :
       /\ pq' = [pq EXCEPT ![j].preds = @ + 1]
       /\ Log([op |-> "predicate", q |-> j])
  /\ OnlyPoll /\ UNCHANGED <<rs, run>>

(* All of them at once: *)
Configure ==
  /\ \E x \in Intervals : \E n \in 0..MaxPreds : \E k \in 0..MaxExpected : \E ss \in [1..k -> Expected] :
       /\ \A i \in 1..(k - 1) : ss[i] # ss[k]
       /\ pq' = <<[interval |-> x, statuses |-> ss, preds |-> n]>>
       /\ Log([op |-> "configure", q |-> 1, x |-> x, ss |-> ss, n |-> n])
  /\ OnlyPoll /\ UNCHANGED <<rs, run>>

-----------------------------------------------------------------------------
(* The loop *)
Wanted(q) == IF pq[q].statuses = <<>> THEN {200} ELSE {pq[q].statuses[i] : i \in 1..Len(pq[q].statuses)}
Accepted(q, a) == a.status \in Wanted(q) /\ 1..pq[q].preds \subseteq a.pass

(* The time when the context ends: *)
Limit(b) == IF b.cancel # 0 /\ b.cancel < b.timeout THEN b.cancel ELSE b.timeout

Failure == [kind |-> "fail", status |-> 0, head |-> 0, toks |-> <<>>, pass |-> {}, delay |-> 0]

PollLog(b, tries, end, why, res) ==
  Log([op |-> "poll", q |-> b.q, timeout |-> b.timeout, cancel |-> b.cancel, sent |-> Sent(rs[b.q]), cfg |-> pq[b.q],
       tries |-> tries, end |-> end, why |-> why, res |-> res])

Begin ==
  /\ rs # <<>>
  /\ \E j \in Some(1..Len(rs)) : \E timeout \in Some(Timeouts) : \E cancel \in Some(IF timeout = 0 THEN {0} ELSE Cancels) :
       LET b == [on |-> TRUE, q |-> j, timeout |-> timeout, cancel |-> cancel, now |-> 0, tries |-> <<>>,
                patience |-> IF Random THEN RandomElement(Patience) ELSE 0] IN
       IF timeout = 0 \/ pq[j].interval <= 0
       THEN PollLog(b, <<>>, 0, "refused", [st |-> "fail", vals |-> <<>>]) /\ run' = Idle
       ELSE run' = b /\ UNCHANGED hist
  /\ OnlyPoll /\ UNCHANGED <<rs, pq>>

(* The document of an answer: *)
GoodDoc(q, vals, turn) == DocValue(OutParams(q)[1], vals[1].v, [turn |-> turn, links |-> FALSE])
ErrorAnswer(vals, turn) == Object(Turned(<<Field(Nm("kind"), <<Str("Error")>>)>> \o Fields(ErrorParams, vals), turn))
AnswerDoc(q, kind, status, turn) ==
  IF kind \in {"empty", "fail"} THEN <<>>
  ELSE LET d == IF ~Random THEN <<P("{"), P("}")>>
                ELSE IF status >= 400 THEN ErrorAnswer(RandomValues(ErrorParams, RandomElement(SUBSET (1..8))), turn)
                ELSE GoodDoc(q, RandomValues(OutParams(q), {1}), turn)
       IN  IF kind = "mistake" THEN SubSeq(d, 1, Len(d) - 1) ELSE d

Attempt ==
  LET early == Len(run.tries) < run.patience IN
  /\ \E kind \in Some(IF early THEN {"good", "empty"} ELSE IF Random /\ RandomElement(1..5) > 1 THEN {"good"} ELSE Kinds) :
     \E status \in Some(IF kind = "fail" THEN {0} ELSE IF early /\ Statuses \ Wanted(run.q) # {} THEN Statuses \ Wanted(run.q) ELSE IF Random /\ RandomElement(1..3) = 1 THEN Wanted(run.q) ELSE Statuses) :
     \E pass \in Some(IF kind = "fail" THEN {{}} ELSE IF Random /\ RandomElement(1..3) = 1 THEN {1..pq[run.q].preds} ELSE SUBSET (1..pq[run.q].preds)) :
     \E delay \in Some(Delays) : \E head \in Some(IF Random THEN 0..2 ELSE {0}) : \E turn \in Some(IF Random THEN 0..5 ELSE {0}) :
     \E toks \in {AnswerDoc(rs[run.q], kind, status, turn)} :
       LET a == [kind |-> IF kind \in {"good", "mistake"} THEN "body" ELSE kind, status |-> status, head |-> head, toks |-> toks, pass |-> pass, delay |-> delay]
           late == run.now + delay > Limit(run)
           x == IF late THEN Failure ELSE a
           end == IF run.now > Limit(run) THEN run.now ELSE IF late THEN Limit(run) ELSE run.now + delay
           tries == Append(run.tries, [at |-> run.now, ans |-> a, lost |-> late, end |-> end])
           why == IF x.kind = "fail" THEN "failed"
                  ELSE IF Accepted(run.q, x) THEN "accepted"
                  ELSE IF end + pq[run.q].interval > run.timeout THEN "deadline"
                  ELSE "again"
       IN
       IF why = "again"
       THEN run' = [run EXCEPT !.now = end + pq[run.q].interval, !.tries = tries] /\ UNCHANGED hist
       ELSE PollLog(run, tries, end, why, Result(rs[run.q], x)) /\ run' = Idle
  /\ OnlyPoll /\ UNCHANGED <<rs, pq>>

-----------------------------------------------------------------------------
PDo(k) ==
  CASE k = "newpoll" -> MakePoll [] k = "interval" -> SetInterval [] k = "status" -> AddStatus [] k = "predicate" -> AddPredicate
    [] k = "configure" -> Configure
    [] k = "poll" -> Begin
    [] OTHER -> CDo(k) /\ UNCHANGED <<pq, run>>

PInit == CInit /\ pq = <<>> /\ run = Idle

PCall ==
  /\ phase = "use" /\ (Count < OpCount \/ run.on)
  /\ IF run.on THEN Attempt
     ELSE \E i \in Some(1..Len(OpKinds)) :
       IF cs = <<>> THEN Connect /\ UNCHANGED <<fl, pq, run>>
       ELSE IF Random THEN (IF ENABLED PDo(OpKinds[i]) THEN PDo(OpKinds[i]) ELSE Noop /\ UNCHANGED <<pq, run>>)
       ELSE i = Count /\ PDo(OpKinds[i])
  /\ steps' = IF run.on THEN steps ELSE steps + 1
  /\ UNCHANGED <<m, phase, hists>>

PFinish ==
  /\ ~run.on
  /\ Finish /\ doc' = <<>> /\ goal' = [q |-> 0] /\ cs' = <<>> /\ rs' = <<>> /\ fl' = <<>> /\ pq' = <<>> /\ UNCHANGED run

PNext ==
  \/ (Grow \/ Start) /\ UNCHANGED <<doc, goal, cs, rs, fl, pq, run>>
  \/ PCall
  \/ PFinish

-----------------------------------------------------------------------------
(* What is promised, without the loop: *)
PollsStopWhenTheyShould ==
  \A j \in 1..Len(hist) : hist[j].op = "poll" =>
    LET h == hist[j]
        n == Len(h.tries)
        wanted == IF h.cfg.statuses = <<>> THEN {200} ELSE {h.cfg.statuses[i] : i \in 1..Len(h.cfg.statuses)}
        answered(i) == h.tries[i].ans.kind # "fail" /\ ~h.tries[i].lost
        good(i) == answered(i) /\ h.tries[i].ans.status \in wanted /\ 1..h.cfg.preds \subseteq h.tries[i].ans.pass
        last(i) == h.tries[i].end + h.cfg.interval > h.timeout
        stops(i) == ~answered(i) \/ good(i) \/ last(i)
    IN
    /\ (n = 0) <=> (h.timeout = 0 \/ h.cfg.interval <= 0)
    /\ \A i \in 1..(n - 1) : ~stops(i)
    /\ n > 0 => stops(n) /\ h.end = h.tries[n].end
    /\ \A i \in 1..n : h.tries[i].at = (IF i = 1 THEN 0 ELSE h.tries[i - 1].end + h.cfg.interval)
    /\ \A i \in 1..n : h.tries[i].at < h.timeout
    /\ n > 0 => h.end < h.timeout + 1

(* The running one hasn't had a reason to stop: *)
RunningIsJustified ==
  run.on => \A i \in 1..Len(run.tries) : ~run.tries[i].lost /\ run.tries[i].ans.kind # "fail" /\ ~Accepted(run.q, run.tries[i].ans)
=============================================================================
