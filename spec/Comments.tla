------------------------------ MODULE Comments ------------------------------
(***************************************************************************)
(* The lines of a model file, and the documentation that they give to the  *)
(* elements that start in them.  The state is the file written so far and  *)
(* the scanner that keeps the comments that have not been used yet.        *)
(* Property M08: the documentation of an element is exactly the block of   *)
(* line comments that is right before the line where it starts.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Emit

CONSTANTS
  Indents,    \* numbers of spaces after the comment mark
  Contexts,   \* contexts where the file can start: sequences of element kinds
  MaxLines,   \* number of lines added to the initial ones
  Trails,     \* whether elements can have trailing comments
  Simulating  \* TRUE to emit only complete files

VARIABLES lines, ctx, pending, captured, annotating, docs, done

vars == <<lines, ctx, pending, captured, annotating, docs, done>>

Blank == [k |-> "blank"]
Block == [k |-> "block"]
Close == [k |-> "close"]
Ann == [k |-> "ann"]
Comment(i, full) == [k |-> "comment", ind |-> i, full |-> full]
Elem(e, t) == [k |-> "elem", e |-> e, trail |-> t]

(* Elements that can be inside each context, and the ones that open a context: *)
Inside(c) ==
  CASE c = "top" -> {"class", "struct", "enum", "resource", "error"}
    [] c \in {"class", "struct"} -> {"attribute"}
    [] c = "enum" -> {"value"}
    [] c = "resource" -> {"method", "locator"}
    [] c = "method" -> {"param"}
Opens(e) == e \in {"class", "struct", "enum", "resource", "method"}

-----------------------------------------------------------------------------
(* Declarative: the comment lines that are right before line n. *)
RECURSIVE BlockBefore(_, _)
BlockBefore(ls, n) ==
  IF n <= 1 \/ ls[n - 1].k # "comment" THEN <<>>
  ELSE Append(BlockBefore(ls, n - 1), n - 1)

(* The line where the element that has its name in line n starts, that of its first annotation: *)
StartOf(ls, n) ==
  LET anns == {m \in 1..(n - 1) : ls[m].k = "ann" /\ \A i \in (m + 1)..(n - 1) : ls[i].k \notin {"elem", "close"}}
  IN  IF anns = {} THEN n ELSE CHOOSE m \in anns : \A i \in anns : m <= i

(* Number of spaces of the first comment of the block that isn't blank: *)
Margin(ls, b) ==
  LET full == {i \in 1..Len(b) : ls[b[i]].full}
  IN  IF full = {} THEN 0 ELSE ls[b[CHOOSE i \in full : \A j \in full : i <= j]].ind

(* Lines that don't have the margin, except completely empty ones, aren't acceptable: *)
Ragged(ls, b) ==
  LET m == Margin(ls, b)
  IN  \E i \in 1..Len(b) : ls[b[i]].ind < m /\ (ls[b[i]].full \/ ls[b[i]].ind > 0)

Doc(ls, b) ==
  LET m == Margin(ls, b)
  IN  [i \in 1..Len(b) |-> [ind |-> IF ls[b[i]].ind >= m THEN ls[b[i]].ind - m ELSE 0,
                            w |-> IF ls[b[i]].full THEN b[i] ELSE 0]]

ElemLines(ls) == {n \in 1..Len(ls) : ls[n].k = "elem"}

-----------------------------------------------------------------------------
(* The file is written line by line. *)
RECURSIVE Opening(_)
Opening(c) == IF c = <<>> THEN <<>> ELSE Append(Opening(Front(c)), Elem(Last(c), FALSE))

Init ==
  \E c \in Contexts :
    /\ lines = Opening(c)
    /\ ctx = <<"top">> \o c
    /\ pending = <<>> /\ captured = <<>> /\ annotating = FALSE
    /\ docs = [n \in 1..Len(c) |-> <<>>]
    /\ done = FALSE

N == Len(lines) + 1

WriteComment(i, full) ==
  /\ lines' = Append(lines, Comment(i, full))
  /\ pending' = Append(pending, N)
  /\ UNCHANGED <<ctx, captured, annotating, docs>>

WriteGap(l) ==
  /\ lines' = Append(lines, l)
  /\ pending' = <<>>
  /\ UNCHANGED <<ctx, captured, annotating, docs>>

WriteAnn ==
  /\ lines' = Append(lines, Ann)
  /\ captured' = IF annotating THEN captured ELSE pending
  /\ annotating' = TRUE
  /\ pending' = <<>>
  /\ UNCHANGED <<ctx, docs>>

WriteElem(e, t) ==
  /\ lines' = Append(lines, Elem(e, t))
  /\ docs' = docs @@ (N :> (IF annotating THEN captured ELSE pending))
  /\ pending' = <<>> /\ captured' = <<>> /\ annotating' = FALSE
  /\ ctx' = IF Opens(e) THEN Append(ctx, e) ELSE ctx

WriteClose ==
  /\ ~annotating
  /\ Len(ctx) > 1
  /\ lines' = Append(lines, Close)
  /\ ctx' = Front(ctx)
  /\ pending' = <<>>
  /\ UNCHANGED <<captured, annotating, docs>>

Limit(c) == Len(c) + MaxLines

Write ==
  /\ ~done
  /\ Len(lines) < MaxLines
  /\ \/ \E i \in Indents, full \in BOOLEAN : WriteComment(i, full)
     \/ WriteGap(Blank)
     \/ WriteGap(Block)
     \/ WriteAnn
     \/ \E e \in Inside(Last(ctx)), t \in Trails : WriteElem(e, t)
     \/ WriteClose
  /\ done' = done

(* Closes what is open: *)
Finish ==
  /\ ~done /\ ~annotating
  /\ Len(lines) = MaxLines
  /\ done' = TRUE
  /\ lines' = lines \o [i \in 1..(Len(ctx) - 1) |-> Close]
  /\ ctx' = <<"top">>
  /\ pending' = <<>>
  /\ UNCHANGED <<captured, annotating, docs>>

Next == Write \/ Finish

-----------------------------------------------------------------------------
(* The scanner does what the definition says: *)
Agrees == \A n \in ElemLines(lines) : docs[n] = BlockBefore(lines, StartOf(lines, n))

(* A comment never documents two elements: *)
Disjoint ==
  \A m, n \in ElemLines(lines) :
    m # n => {docs[m][i] : i \in 1..Len(docs[m])} \cap {docs[n][i] : i \in 1..Len(docs[n])} = {}

Emission ==
  done =>
    EmitCase([lines |-> lines,
              ok |-> \A n \in ElemLines(lines) : ~Ragged(lines, docs[n]),
              docs |-> [n \in 1..Len(lines) |-> IF n \in ElemLines(lines) THEN Doc(lines, docs[n]) ELSE <<>>]])
=============================================================================
