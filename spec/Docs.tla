-------------------------------- MODULE Docs --------------------------------
(***************************************************************************)
(* The reference documentation of a model (property G02).  Each element of *)
(* the model is documented by lines of words.  A writer goes through the   *)
(* types and resources, in any order, and writes a page for each of them;  *)
(* a page is a sequence of sections, each with a heading, a text and a     *)
(* table.  What a reader gets from the pages has to be what the model says.*)
(***************************************************************************)
EXTENDS ModelGen

CONSTANTS
  Words,     \* words that can be used in the documentation
  MaxWords,  \* maximum number of words of a line
  MaxLines   \* maximum number of lines of documentation

VARIABLES
  phase,  \* "grow", "document", "write" or "end"
  queue,  \* elements that haven't been documented
  doc,    \* set of pairs of elements and their documentation
  todo,   \* pages that the writer has to write
  pages   \* pages written

vars == <<m, steps, phase, queue, doc, todo, pages>>

-----------------------------------------------------------------------------
(* Elements are identified by the version, the type or resource, and the positions of the members: *)
TypeElements(i) ==
  UNION {{<<i, "type", k>>} \cup {<<i, "type", k, j>> : j \in 1..(Len(m[i].types[k].values) + Len(m[i].types[k].attrs))}
         : k \in 1..Len(m[i].types)}
ResourceElements(i) ==
  UNION {{<<i, "resource", k>>} \cup
         UNION {{<<i, "resource", k, j>>} \cup {<<i, "resource", k, j, p>> : p \in 1..Len(m[i].resources[k].methods[j].params)}
                : j \in 1..Len(m[i].resources[k].methods)}
         : k \in 1..Len(m[i].resources)}
Documented == UNION {TypeElements(i) \cup ResourceElements(i) : i \in 1..Len(m)}
PageIds == {e \in Documented : Len(e) = 3}

(* The thing that an element is, enumerated values first: *)
Thing(e) ==
  LET top == IF e[2] = "type" THEN m[e[1]].types[e[3]] ELSE m[e[1]].resources[e[3]]
  IN  CASE Len(e) = 3 -> top
        [] Len(e) = 4 /\ e[2] = "type" -> (top.values \o top.attrs)[e[4]]
        [] Len(e) = 4 -> top.methods[e[4]]
        [] OTHER -> top.methods[e[4]].params[e[5]]
Members(e) == {x \in Documented : Len(x) = Len(e) + 1 /\ SubSeq(x, 1, Len(e)) = e}

DocOf(e) == IF \E x \in doc : x[1] = e THEN (CHOOSE x \in doc : x[1] = e)[2] ELSE <<>>

-----------------------------------------------------------------------------
(* Documentation: lines of words; some words end a sentence.  The first word of each documentation
   is different, and the last line isn't empty. *)
Word(w, end) == [w |-> w, end |-> end]

RECURSIVE RandomLine(_)
RandomLine(n) ==
  IF n = 0 THEN <<>>
  ELSE RandomLine(n - 1) \o <<Word(RandomElement(Words), RandomElement(1..6) = 1)>>
RECURSIVE RandomLines(_)
RandomLines(n) == IF n = 0 THEN <<>> ELSE RandomLines(n - 1) \o <<RandomLine(RandomElement(0..MaxWords))>>

Lines(k) == UNION {[1..n -> {Word(w, b) : w \in Words, b \in BOOLEAN}] : n \in 0..k}
Blocks == UNION {[1..n -> Lines(MaxWords)] : n \in 0..MaxLines}

Mark(d, first) == [d EXCEPT ![1] = <<Word(first, FALSE)>> \o @]
Acceptable(d) == d = <<>> \/ (d[Len(d)] # <<>>)
SomeBlocks(k) == IF Random THEN {RandomLines(RandomElement(0..(MaxLines + k - k)))} ELSE Blocks

-----------------------------------------------------------------------------
(* The text of the documentation, and its first sentence: *)
Flat(d) == FlattenSeq(d)
Ends(d) == {i \in 1..Len(Flat(d)) : Flat(d)[i].end}
Summary(d) ==
  IF Ends(d) = {} THEN Flat(d)
  ELSE SubSeq(Flat(d), 1, CHOOSE i \in Ends(d) : \A j \in Ends(d) : i <= j)

Row(e) == [n |-> Thing(e).n, s |-> Summary(DocOf(e))]
Section(e, rows) ==
  [of |-> Len(e) - 2, n |-> Thing(e).n,
   verb |-> IF e[2] = "resource" /\ Len(e) = 4 THEN Verb(Thing(e)) ELSE "",
   doc |-> DocOf(e), rows |-> rows]

Ordered(S) == SetToSeq(S)
Rows(e) == LET s == Ordered(Members(e)) IN [i \in 1..Len(s) |-> Row(s[i])]

RECURSIVE Sections(_)
Sections(e) ==
  LET s == Ordered(Members(e))
  IN  <<Section(e, Rows(e))>> \o FlattenSeq([i \in 1..Len(s) |-> Sections(s[i])])

File(e) == [n |-> Thing(e).n, k |-> e[2]]

-----------------------------------------------------------------------------
Init == GenInit /\ phase = "grow" /\ queue = <<>> /\ doc = {} /\ todo = {} /\ pages = {}

Grow == phase = "grow" /\ GenNext /\ UNCHANGED <<phase, queue, doc, todo, pages>>

StartDocumenting ==
  /\ phase = "grow" /\ Generated
  /\ phase' = "document" /\ queue' = SetToSeq(Documented)
  /\ UNCHANGED <<m, steps, doc, todo, pages>>

Document ==
  /\ phase = "document" /\ queue # <<>>
  /\ \E d \in SomeBlocks(Len(queue)) :
       LET x == IF d = <<>> \/ ~Acceptable(d) THEN <<>> ELSE Mark(d, "w" \o ToString(Len(queue)))
       IN  doc' = IF x = <<>> THEN doc ELSE doc \cup {<<Head(queue), x>>}
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<m, steps, phase, todo, pages>>

StartWriting ==
  /\ phase = "document" /\ queue = <<>>
  /\ phase' = "write" /\ todo' = PageIds
  /\ UNCHANGED <<m, steps, queue, doc, pages>>

WritePage ==
  /\ phase = "write" /\ todo # {}
  /\ \E e \in (IF Random THEN Some(todo) ELSE {CHOOSE y \in todo : TRUE}) :
       /\ todo' = todo \ {e}
       /\ pages' = pages \cup {[id |-> e, file |-> File(e), sections |-> Sections(e)]}
  /\ UNCHANGED <<m, steps, phase, queue, doc>>

EndWriting == phase = "write" /\ todo = {} /\ phase' = "end" /\ UNCHANGED <<m, steps, queue, doc, todo, pages>>

Next == Grow \/ StartDocumenting \/ Document \/ StartWriting \/ WritePage \/ EndWriting

-----------------------------------------------------------------------------
End == phase = "end"

(* The reader: it knows nothing about the model.  It gets the parts of a page from the levels of
   its headings: the owner of a section is the last one before it with a lower level. *)
Owner(ss, i) ==
  LET above == {j \in 1..(i - 1) : ss[j].of < ss[i].of}
  IN  IF above = {} THEN 0 ELSE CHOOSE j \in above : \A k \in above : k <= j
Children(ss, i) == {j \in 1..Len(ss) : Owner(ss, j) = i}
RECURSIVE Read(_, _)
Read(ss, i) == [n |-> ss[i].n, verb |-> ss[i].verb, doc |-> ss[i].doc, parts |-> {Read(ss, j) : j \in Children(ss, i)}]

(* What there is to know about an element: *)
RECURSIVE Knowledge(_)
Knowledge(e) ==
  [n |-> Thing(e).n, verb |-> IF e[2] = "resource" /\ Len(e) = 4 THEN Verb(Thing(e)) ELSE "",
   doc |-> DocOf(e), parts |-> {Knowledge(x) : x \in Members(e)}]

(* G02: every type and resource has a page, and reading it gives all that the model says: *)
PagesSayTheModel ==
  End => /\ {p.id : p \in pages} = PageIds
         /\ \A p \in pages : Read(p.sections, 1) = Knowledge(p.id)

(* G02: tables have a row for each part, with the beginning of its text: *)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
TablesListTheParts ==
  End => \A p \in pages : \A i \in 1..Len(p.sections) :
    LET ss == p.sections IN
    /\ Len(ss[i].rows) = Cardinality(Children(ss, i))
    /\ \A j \in Children(ss, i) : \E k \in 1..Len(ss[i].rows) :
         /\ ss[i].rows[k].n = ss[j].n
         /\ IsPrefixOf(ss[i].rows[k].s, Flat(ss[j].doc))
         /\ ss[j].doc # <<>> => ss[i].rows[k].s # <<>>

(* G02: pages of the same version are in different files: *)
FilesAreDistinct ==
  End => \A p, q \in pages : (p.id[1] = q.id[1] /\ p.file = q.file) => p = q

Emission ==
  End => EmitCase([model |-> m, docs |-> SetToSeq(doc),
                   pages |-> SetToSeq({[p EXCEPT !.id = <<ToString(p.id[1]), p.id[2], ToString(p.id[3])>>] : p \in pages})])
=============================================================================
