------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* Identifiers that are typed character by character, and the words that   *)
(* they contain.  The state keeps, besides the identifier, the words found *)
(* by an incremental scanner that sees one character at a time; property   *)
(* M06: they are always the ones that the definition in Words gives, no    *)
(* character is lost, and the derived names only depend on them.           *)
(***************************************************************************)
EXTENDS Words, Emit

CONSTANTS
  Alphabet, \* characters used
  MaxLen    \* maximum length of identifiers

VARIABLES
  id,     \* the characters typed so far
  closed, \* words that can't change any more
  open    \* the characters that are not yet part of a closed word

vars == <<id, closed, open>>

Init ==
  /\ \E c \in Alphabet \ Digits : id = <<c>> /\ open = <<c>>
  /\ closed = <<>>

(* Words for the open characters when nothing follows. They are at most: capitals, lowers *)
OpenUps == SelectSeq(open, IsUpperChar)
OpenWords ==
  IF open = <<>> THEN <<>>
  ELSE IF IsLowerChar(open[1]) THEN <<Word(open)>>
  ELSE LET ups == SelectSeq(open, IsUpperChar)
           lows == SelectSeq(open, IsLowerChar)
       IN  CASE lows = <<>> /\ Len(ups) = 1 -> <<Word(ups)>>
             [] lows = <<>> /\ Len(ups) > 1 -> <<Initialism(ups)>>
             [] lows # <<>> /\ Len(ups) = 1 -> <<Word(open)>>
             [] lows = <<"s">> /\ Len(ups) > 1 -> <<Initialism(open)>>
             [] OTHER -> <<Initialism(Front(ups)), Word(<<Last(ups)>> \o lows)>>

Type(c) ==
  /\ Len(id) < MaxLen
  /\ id' = Append(id, c)
  /\ IF IsUpperChar(c) /\ IsLowerChar(Last(open))
     THEN closed' = closed \o OpenWords /\ open' = <<c>>
     ELSE closed' = closed /\ open' = Append(open, c)

Next == \E c \in Alphabet : Type(c)

Found == closed \o OpenWords

-----------------------------------------------------------------------------
Agrees == Found = WordsOf(id)

NothingLost ==
  /\ Flat([i \in 1..Len(Found) |-> Found[i].low]) = LowerSeq(id)
  /\ LowerSeq(CamelOf(Found)) = LowerSeq(id)

NoEmptyWords == \A i \in 1..Len(Found) : Found[i].low # <<>>

(* The capitalised form is a canonical name, unless words start with digits or are followed by
   initialisms, which don't leave a mark: *)
CanonicalWhen ==
  (/\ \A i \in 1..Len(id) : id[i] \notin Digits
   /\ \A i \in 1..Len(Found) : Len(Found[i].low) > 1 /\ ~(Len(Found[i].cap) > 1 /\ IsUpperChar(Found[i].cap[2])))
  => WordsOf(CamelOf(Found)) = Found

Emission == EmitCase([id |-> Str(id), snake |-> Str(SnakeOf(Found)), camel |-> Str(CamelOf(Found)), n |-> Len(Found),
                      words |-> [i \in 1..Len(Found) |-> Str(Found[i].low)]])
=============================================================================
