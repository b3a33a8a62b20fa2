------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The reader of the modelling language: a history of declarations, read   *)
(* one by one, each one in the version and file where it is found.  The    *)
(* operational state keeps, like the tool does, the concepts defined so    *)
(* far and the ones that have been used but not yet defined; the property  *)
(* M01 is the declarative predicate WellFormed over the whole history, and *)
(* both have to agree after each step (invariant VerdictsAgree).           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Emit

CONSTANTS
  Pool,       \* names of the declarations that may appear: "small" or "large"
  Versions,   \* sequence of versions, in the order in which they are read
  MaxLen,     \* maximum number of declarations
  Layouts,    \* subset of BOOLEAN: whether a declaration may start a new file, or continue one
  Guided,     \* whether to consider only declarations that aren't wrong by themselves
  Simulating, \* whether only complete histories should be emitted
  Seeds       \* set of sequences of [v, f, d] that are used as initial histories

VARIABLES
  hist,       \* declarations read so far: sequence of [v, f, d]
  defined,    \* version -> set of <<"type"|"resource"|"error", name>>
  undefined,  \* version -> set of <<"type"|"resource", name>> used but not declared yet
  failed,     \* whether some error has already been reported
  verdicts,   \* verdict after each step, if reading stopped there
  done        \* whether the history is complete (used only when simulating)

vars == <<hist, defined, undefined, failed, verdicts, done>>

-----------------------------------------------------------------------------
(* Names are sequences of words: different identifiers may be the same name. *)
NameOf(id) ==
  CASE id = "fooBar"  -> "foo_bar"
    [] id = "FooBar"  -> "foo_bar"
    [] id = "Foobar"  -> "foobar"
    [] id = "FOOBar"  -> "FOO_bar"
    [] id = "bar"     -> "Bar"
    [] id = "x"       -> "X"
    [] OTHER -> id

Builtin == {"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface"}

(* Members of declarations: *)
A(n, form, t)  == [k |-> "attr", n |-> n, form |-> form, t |-> t]
V(n)           == [k |-> "value", n |-> n]
M(n, ps)       == [k |-> "method", n |-> n, ps |-> ps]
L(n, r)        == [k |-> "locator", n |-> n, t |-> r]

D(kind, n, ms) == [kind |-> kind, n |-> n, ms |-> ms]

Small == <<
  D("resource", "Root", <<>>),
  D("resource", "Root", <<L("Foos", "Foos")>>),
  D("resource", "Foos", <<>>),
  D("resource", "Foos", <<M("Check", <<A("Bar", "plain", "FooBar")>>)>>),
  D("resource", "Foos", <<L("Sub", "Subs"), L("Sub", "Subs")>>),
  D("resource", "Subs", <<L("Other", "")>>),
  D("class", "FooBar", <<>>),
  D("class", "fooBar", <<A("Sub", "plain", "Sub")>>),
  D("class", "FooBar", <<A("Self", "link", "fooBar")>>),
  D("struct", "FooBar", <<A("Sub", "list", "Sub")>>),
  D("struct", "Sub", <<A("X", "plain", "Integer")>>),
  D("class", "Sub", <<A("Bar", "map", "FooBar")>>),
  D("enum", "Sub", <<V("Ready"), V("Failed")>>),
  D("error", "FooBar", <<>>),
  D("error", "NotFound", <<>>)
>>

Large == Small \o <<
  D("resource", "Foos", <<M("Check", <<>>), M("Check", <<>>)>>),
  D("resource", "Foos", <<M("Check", <<A("Bar", "plain", "String"), A("bar", "plain", "Integer")>>)>>),
  D("resource", "Foos", <<M("Check", <<A("Bar", "list", "Sub")>>), L("Check", "Subs")>>),
  D("resource", "Subs", <<>>),
  D("resource", "FooBar", <<>>),
  D("class", "Foobar", <<A("Sub", "linklist", "FOOBar")>>),
  D("class", "FOOBar", <<A("Sub", "mapindex", "Sub")>>),
  D("class", "String", <<>>),
  D("struct", "Sub", <<A("X", "plain", "Integer"), A("Y", "plain", "Integer"), A("x", "plain", "String")>>),
  D("struct", "Sub", <<A("FooBar", "plain", "Date"), A("fooBar", "plain", "Date")>>),
  D("struct", "Sub", <<A("FooBar", "plain", "Date"), A("Foobar", "plain", "Float")>>),
  D("enum", "Sub", <<V("Ready"), V("Failed"), V("Ready")>>),
  D("enum", "Sub", <<V("FooBar"), V("fooBar")>>),
  D("enum", "FooBar", <<>>),
  D("enum", "Interface", <<V("One")>>),
  D("class", "Sub", <<A("A", "list", "Sub"), A("B", "map", "Sub"), A("C", "plain", "Interface")>>),
  D("struct", "FooBar", <<A("Sub", "mapindex", "Nowhere")>>),
  D("class", "Root", <<A("R", "link", "Root")>>)
>>

Decls == IF Pool = "small" THEN Small ELSE Large

-----------------------------------------------------------------------------
(* What a member uses: *)
Uses(m) ==
  CASE m.k = "attr"    -> {<<"type", NameOf(m.t)>>}
    [] m.k = "method"  -> {<<"type", NameOf(m.ps[i].t)>> : i \in 1..Len(m.ps)}
    [] m.k = "locator" -> IF m.t = "" THEN {} ELSE {<<"resource", NameOf(m.t)>>}
    [] OTHER -> {}

UsesOf(d) == UNION {Uses(d.ms[i]) : i \in 1..Len(d.ms)}

Space(d) ==
  CASE d.kind \in {"class", "struct", "enum"} -> "type"
    [] OTHER -> d.kind

Key(d) == <<Space(d), NameOf(d.n)>>

(* Repeated members: methods and locators are separate name spaces. *)
RepeatedNames(ms, k) ==
  \E i, j \in 1..Len(ms) :
    /\ i < j
    /\ ms[i].k = k /\ ms[j].k = k
    /\ NameOf(ms[i].n) = NameOf(ms[j].n)

BadMembers(d) ==
  \/ \E k \in {"attr", "value", "method", "locator"} : RepeatedNames(d.ms, k)
  \/ \E i \in 1..Len(d.ms) : d.ms[i].k = "method" /\ RepeatedNames(d.ms[i].ps, "attr")
  \/ \E i \in 1..Len(d.ms) : d.ms[i].k = "locator" /\ d.ms[i].t = ""

Predefined == {<<"type", b>> : b \in Builtin}

-----------------------------------------------------------------------------
(* Declarative: the property. *)
InVersion(h, v) == {i \in 1..Len(h) : h[i].v = v}

WellFormedVersion(h, v) ==
  LET is == InVersion(h, v)
      decl == {Key(Decls[h[i].d]) : i \in is} \cup Predefined
      used == UNION {UsesOf(Decls[h[i].d]) : i \in is}
  IN  /\ <<"resource", "Root">> \in decl
      /\ used \subseteq decl
      /\ \A i, j \in is : i # j => Key(Decls[h[i].d]) # Key(Decls[h[j].d])
      /\ \A i \in is : Key(Decls[h[i].d]) \notin Predefined
      /\ \A i \in is : ~BadMembers(Decls[h[i].d])

UsedVersions(h) == {h[i].v : i \in 1..Len(h)}

WellFormed(h) == \A v \in UsedVersions(h) : WellFormedVersion(h, v)

-----------------------------------------------------------------------------
(* Operational: what reading does. *)
Read(h, def, und, bad, e) ==
  LET d == Decls[e.d]
      v == e.v
      missing == UsesOf(d) \ def[v]
      und1 == [und EXCEPT ![v] = @ \cup missing]
  IN  IF Key(d) \in def[v]
      THEN [hist |-> Append(h, e), defined |-> def, undefined |-> und1, failed |-> TRUE]
      ELSE [hist |-> Append(h, e),
            defined |-> [def EXCEPT ![v] = @ \cup {Key(d)}],
            undefined |-> [und1 EXCEPT ![v] = @ \ {Key(d)}],
            failed |-> bad \/ BadMembers(d)]

VersionSet == {Versions[i] : i \in 1..Len(Versions)}
Index(v) == CHOOSE i \in 1..Len(Versions) : Versions[i] = v

Empty == [hist |-> <<>>, defined |-> [v \in VersionSet |-> Predefined],
          undefined |-> [v \in VersionSet |-> {}], failed |-> FALSE]

RECURSIVE ReadAll(_, _)
ReadAll(s, es) ==
  IF es = <<>> THEN s
  ELSE ReadAll(Read(s.hist, s.defined, s.undefined, s.failed, Head(es)), Tail(es))

VerdictOf(s) ==
  /\ ~s.failed
  /\ \A v \in UsedVersions(s.hist) : s.undefined[v] = {} /\ <<"resource", "Root">> \in s.defined[v]

Set(s) ==
  /\ verdicts' = Append(verdicts, VerdictOf(s))
  /\ done' = FALSE
  /\ hist' = s.hist
  /\ defined' = s.defined
  /\ undefined' = s.undefined
  /\ failed' = s.failed

Init ==
  \E es \in Seeds :
    LET s == ReadAll(Empty, es) IN
      /\ hist = s.hist /\ defined = s.defined /\ undefined = s.undefined /\ failed = s.failed
      /\ verdicts = [i \in 1..Len(es) |-> VerdictOf(ReadAll(Empty, SubSeq(es, 1, i)))]
      /\ done = FALSE

LastFile == IF hist = <<>> THEN 0 ELSE hist[Len(hist)].f
LastVersion == IF hist = <<>> THEN 1 ELSE Index(hist[Len(hist)].v)

Extend ==
  /\ Len(hist) < MaxLen
  /\ \E vi \in LastVersion..Len(Versions), new \in Layouts, di \in 1..Len(Decls) :
       LET fresh == new \/ hist = <<>> \/ vi # LastVersion
           f == IF fresh THEN LastFile + 1 ELSE LastFile
           s == Read(hist, defined, undefined, failed, [v |-> Versions[vi], f |-> f, d |-> di])
       IN  /\ Guided => ~s.failed
           /\ Guided /\ vi # LastVersion => VerdictOf([hist |-> hist, defined |-> defined, undefined |-> undefined, failed |-> failed])
           /\ Set(s)

Finish ==
  /\ Simulating /\ ~done
  /\ Len(hist) = MaxLen \/ ~ENABLED Extend
  /\ done' = TRUE
  /\ UNCHANGED <<hist, defined, undefined, failed, verdicts>>

Next == Extend \/ Finish

Verdict == VerdictOf([hist |-> hist, defined |-> defined, undefined |-> undefined, failed |-> failed])

VerdictsAgree == Verdict = WellFormed(hist)

(* Nothing can be defined and undefined at the same time: *)
Consistent == \A v \in VersionSet : defined[v] \cap undefined[v] = {}

Emission ==
  (hist # <<>> /\ (Simulating => done)) =>
    EmitCase([decls |-> [i \in 1..Len(hist) |-> [v |-> hist[i].v, f |-> hist[i].f, d |-> Decls[hist[i].d]]],
              ok |-> Verdict, verdicts |-> verdicts])
=============================================================================
