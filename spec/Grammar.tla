------------------------------- MODULE Grammar -------------------------------
(***************************************************************************)
(* The modelling language as a pushdown automaton: a stack of grammar      *)
(* symbols that is advanced token by token.  A text is a sequence of       *)
(* complete declarations if and only if the automaton consumes all of it   *)
(* and ends with only the symbol File in the stack (property M05).         *)
(*                                                                         *)
(* Two kinds of behaviours: in "prefix" mode every viable prefix is        *)
(* explored, and for each one the tokens that can't follow it; in "mutate" *)
(* mode a file is built at random, completed, and then some of its tokens  *)
(* are removed, repeated, exchanged or replaced.                           *)
(*                                                                         *)
(* Identifiers have a role so that they can be rendered without changing   *)
(* the verdict: declared names are always new, used types and resources    *)
(* always exist.  Default values of parameters are restricted to what is   *)
(* also semantically correct, and locators have to have a target; so that  *)
(* the prediction is about acceptance of the complete file.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Emit

CONSTANTS
  Mode,      \* "prefix" or "mutate"
  Starts,    \* set of sequences of tokens used as initial prefixes
  MaxTokens, \* number of tokens added to the initial prefix
  MaxMutations

VARIABLES stack, toks, base, phase, mutations

vars == <<stack, toks, base, phase, mutations>>

Tokens == {"class", "struct", "enum", "error", "resource", "method", "locator", "attribute", "link",
           "value", "parameter", "in", "out", "target", "variable", "code", "true", "false",
           "@", "{", "}", "[", "]", "(", ")", "=", "INT", "STR", "ID"}

Garbage == {"#", ";", "-", ",", "\"", "/*"}

(* Literals that have the right shape but don't mean anything, like a string with a wrong escape sequence or
   a number that is too big.  No symbol matches them: *)
BadLiteral(t) == IF t = "STR" THEN {"BADSTR"} ELSE IF t = "INT" THEN {"BADINT"} ELSE {}

(* Roles of identifiers: *)
Roles == {"NewType", "NewResource", "NewMember", "NewError", "TypeId", "ResourceId", "AnnotationId", "VariableId"}

Matches(sym, tok) == IF sym \in Roles THEN tok = "ID" ELSE sym = tok

Terminal(sym) == sym \in Roles \cup Tokens

DeclStart   == {"@", "class", "struct", "enum", "error", "resource"}
EnumStart   == {"@", "value", "ID"}
StructStart == {"@", "attribute", "link", "ID"}
ResStart    == {"@", "method", "locator", "ID"}
ParamStart  == {"@", "parameter", "in", "out", "ID"}

None == <<"none">>

(* Productions: the symbols that replace a symbol when the next token is the given one. *)
Expand(sym, t) ==
  CASE sym = "File" -> IF t \in DeclStart THEN <<"Decl", "File">> ELSE None
    [] sym = "Decl" ->
         CASE t = "@" -> <<"Annotation", "Decl">>
           [] t = "enum" -> <<"enum", "NewType", "{", "EnumMembers", "}">>
           [] t = "class" -> <<"class", "NewType", "{", "StructMembers", "}">>
           [] t = "struct" -> <<"struct", "NewType", "{", "StructMembers", "}">>
           [] t = "error" -> <<"error", "NewError", "{", "ErrorMembers", "}">>
           [] t = "resource" -> <<"resource", "NewResource", "{", "ResourceMembers", "}">>
           [] OTHER -> None
    [] sym = "Annotation" -> IF t = "@" THEN <<"@", "AnnotationId", "AnnotationParams">> ELSE None
    [] sym = "AnnotationParams" -> IF t = "(" THEN <<"(", "AnnotationList", ")">> ELSE <<>>
    [] sym = "AnnotationList" -> IF t = "ID" THEN <<"AnnotationId", "=", "Literal", "AnnotationList">> ELSE <<>>
    [] sym = "Literal" -> IF t \in {"true", "false", "INT", "STR"} THEN <<t>> ELSE None
    [] sym = "EnumMembers" -> IF t \in EnumStart THEN <<"EnumMember", "EnumMembers">> ELSE <<>>
    [] sym = "EnumMember" ->
         CASE t = "@" -> <<"Annotation", "EnumMember">>
           [] t = "value" -> <<"value", "NewMember">>
           [] OTHER -> <<"NewMember">>
    [] sym = "StructMembers" -> IF t \in StructStart THEN <<"StructMember", "StructMembers">> ELSE <<>>
    [] sym = "StructMember" ->
         CASE t = "@" -> <<"Annotation", "StructMember">>
           [] t = "attribute" -> <<"attribute", "NewMember", "Type">>
           [] t = "link" -> <<"link", "NewMember", "Type">>
           [] OTHER -> <<"NewMember", "Type">>
    [] sym = "Type" ->
         CASE t = "ID" -> <<"TypeId">>
           [] t = "[" -> <<"[", "Index">>
           [] OTHER -> None
    [] sym = "Index" ->
         CASE t = "]" -> <<"]", "TypeId">>
           [] t = "ID" -> <<"TypeId", "]", "TypeId">>
           [] OTHER -> None
    [] sym = "ResourceMembers" -> IF t \in ResStart THEN <<"ResourceMember", "ResourceMembers">> ELSE <<>>
    [] sym = "ResourceMember" ->
         CASE t = "@" -> <<"Annotation", "ResourceMember">>
           [] t = "method" -> <<"method", "NewMember", "{", "Params", "}">>
           [] t = "locator" -> <<"locator", "NewMember", "{", "LocatorMembers", "}">>
           [] OTHER -> <<"NewMember", "{", "Params", "}">>
    [] sym = "Params" -> IF t \in ParamStart THEN <<"Param", "Params">> ELSE <<>>
    [] sym = "Param" ->
         CASE t = "@" -> <<"Annotation", "Param">>
           [] t = "parameter" -> <<"parameter", "Directions">>
           [] OTHER -> <<"Directions">>
    [] sym = "Directions" ->
         CASE t = "in" -> <<"in", "Directions">>
           [] t = "out" -> <<"out", "Directions">>
           [] OTHER -> <<"NewMember", "ParamType">>
    [] sym = "ParamType" ->
         CASE t = "ID" -> <<"TypeId", "Default">>
           [] t = "[" -> <<"[", "Index">>
           [] OTHER -> None
    [] sym = "Default" -> IF t = "=" THEN <<"=", "STR">> ELSE <<>>
    [] sym = "LocatorMembers" ->
         CASE t = "target" -> <<"target", "ResourceId", "MoreLocatorMembers">>
           [] t = "variable" -> <<"variable", "VariableId", "LocatorMembers">>
           [] OTHER -> None
    [] sym = "MoreLocatorMembers" ->
         CASE t = "target" -> <<"target", "ResourceId", "MoreLocatorMembers">>
           [] t = "variable" -> <<"variable", "VariableId", "MoreLocatorMembers">>
           [] OTHER -> <<>>
    [] sym = "ErrorMembers" -> IF t = "code" THEN <<"code", "INT", "ErrorMembers">> ELSE <<>>
    [] OTHER -> None

Stuck == <<"stuck">>

(* Advance with one token; returns the new stack and the role of the token. *)
RECURSIVE Advance(_, _)
Advance(st, t) ==
  IF st = <<>> \/ st = Stuck THEN [stack |-> Stuck, role |-> t]
  ELSE LET top == Head(st) IN
       IF Terminal(top)
       THEN IF Matches(top, t) THEN [stack |-> Tail(st), role |-> top] ELSE [stack |-> Stuck, role |-> t]
       ELSE LET e == Expand(top, t) IN
            IF e = None THEN [stack |-> Stuck, role |-> t]
            ELSE Advance(e \o Tail(st), t)

RECURSIVE Run(_, _, _)
Run(st, ts, roles) ==
  IF ts = <<>> THEN [stack |-> st, roles |-> roles]
  ELSE LET a == Advance(st, Head(ts)) IN Run(a.stack, Tail(ts), Append(roles, a.role))

Start == <<"File">>

Accepts(ts) == Run(Start, ts, <<>>).stack = <<"File">>

RolesOf(ts) == Run(Start, ts, <<>>).roles

(* The shortest way to finish what is in the stack: *)
Shortest(sym) ==
  CASE sym \in Roles -> <<"ID">>
    [] sym \in Tokens -> <<sym>>
    [] sym = "Decl" -> <<"enum", "ID", "{", "}">>
    [] sym = "Annotation" -> <<"@", "ID">>
    [] sym = "Literal" -> <<"STR">>
    [] sym = "EnumMember" -> <<"ID">>
    [] sym \in {"StructMember", "Param", "Directions"} -> <<"ID", "ID">>
    [] sym \in {"Type", "ParamType"} -> <<"ID">>
    [] sym = "Index" -> <<"]", "ID">>
    [] sym = "ResourceMember" -> <<"ID", "{", "}">>
    [] sym = "LocatorMembers" -> <<"target", "ID">>
    [] OTHER -> <<>>

RECURSIVE Completion(_)
Completion(st) == IF st = <<>> THEN <<>> ELSE Shortest(Head(st)) \o Completion(Tail(st))

-----------------------------------------------------------------------------
Init ==
  \E s \in Starts :
    /\ base = Len(s)
    /\ toks = s
    /\ stack = Run(Start, s, <<>>).stack
    /\ phase = "build"
    /\ mutations = 0

Build ==
  /\ phase = "build"
  /\ Len(toks) < base + MaxTokens
  /\ \E t \in Tokens :
       LET a == Advance(stack, t) IN
         /\ a.stack # Stuck
         /\ stack' = a.stack
         /\ toks' = Append(toks, t)
  /\ UNCHANGED <<base, phase, mutations>>

Complete ==
  /\ Mode = "mutate"
  /\ phase = "build"
  /\ Len(toks) = base + MaxTokens
  /\ toks' = toks \o Completion(stack)
  /\ stack' = Run(Start, toks', <<>>).stack
  /\ phase' = "mutate"
  /\ UNCHANGED <<base, mutations>>

Mutate ==
  /\ phase = "mutate"
  /\ mutations < MaxMutations
  /\ \/ \E i \in 1..Len(toks) : toks' = RemoveAt(toks, i)
     \/ \E i \in 1..Len(toks) : toks' = SubSeq(toks, 1, i) \o SubSeq(toks, i, Len(toks))
     \/ \E i \in 1..(Len(toks) - 1) : toks' = [toks EXCEPT ![i] = toks[i + 1], ![i + 1] = toks[i]]
     \/ \E i \in 1..Len(toks) : \E t \in {"ID", "}", "{", "STR"} \cup BadLiteral(toks[i]) : toks' = [toks EXCEPT ![i] = t]
     \/ \E i \in 1..Len(toks) : toks' = SubSeq(toks, 1, i)
  /\ stack' = Run(Start, toks', <<>>).stack
  /\ mutations' = mutations + 1
  /\ UNCHANGED <<base, phase>>

Finish ==
  /\ phase = "mutate" /\ mutations = MaxMutations
  /\ phase' = "done"
  /\ UNCHANGED <<stack, toks, base, mutations>>

Next == Build \/ Complete \/ Mutate \/ Finish

-----------------------------------------------------------------------------
(* Viable prefixes can always be completed, and nothing else can: *)
Viable == phase = "build" => Accepts(toks \o Completion(stack))

(* A token that can't follow is really fatal, whatever comes after: *)
Wrong == {t \in Tokens : Advance(stack, t).stack = Stuck}
Fatal == phase = "build" => \A t \in Wrong : ~Accepts(Append(toks, t) \o Completion(stack))
BadLiteralsAreFatal ==
  phase = "build" =>
    \A i \in 1..Len(toks) : \A t \in BadLiteral(toks[i]) : ~Accepts([toks EXCEPT ![i] = t] \o Completion(stack))

Emission ==
  CASE Mode = "prefix" ->
         EmitCase([toks |-> toks, roles |-> RolesOf(toks), ok |-> (stack = <<"File">>),
                   wrong |-> Wrong \cup Garbage,
                   instead |-> IF toks = <<>> THEN {} ELSE BadLiteral(toks[Len(toks)]),
                   completion |-> Completion(stack),
                   completed |-> RolesOf(toks \o Completion(stack))])
    [] phase = "done" -> EmitCase([toks |-> toks, roles |-> RolesOf(toks), ok |-> Accepts(toks)])
    [] OTHER -> TRUE
=============================================================================
