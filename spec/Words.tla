------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Identifiers and the words they consist of.  Identifiers are sequences   *)
(* of one character strings.  A word is a record with its characters in    *)
(* lower case, and the form it has when capitalised.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Lowers == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
            "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Uppers == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
            "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

LowerSet == {Lowers[i] : i \in 1..26}
UpperSet == {Uppers[i] : i \in 1..26}

IsLowerChar(c) == c \in LowerSet
IsUpperChar(c) == c \in UpperSet \cup Digits

Lower(c) == IF c \in UpperSet THEN Lowers[CHOOSE i \in 1..26 : Uppers[i] = c] ELSE c
Upper(c) == IF c \in LowerSet THEN Uppers[CHOOSE i \in 1..26 : Lowers[i] = c] ELSE c

LowerSeq(cs) == [i \in 1..Len(cs) |-> Lower(cs[i])]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* Concatenation of the characters: *)
RECURSIVE Str(_)
Str(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Str(Tail(cs))

Word(cs) == [low |-> LowerSeq(cs),
             cap |-> [i \in 1..Len(cs) |-> IF i = 1 THEN Upper(cs[1]) ELSE Lower(cs[i])]]
Initialism(cs) == [low |-> LowerSeq(cs), cap |-> cs]

-----------------------------------------------------------------------------
(* Maximal runs of characters that are all lower case, or all not lower case: *)
RECURSIVE Runs(_)
Runs(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET stops == {i \in 1..Len(cs) : i < Len(cs) => IsLowerChar(cs[i]) # IsLowerChar(cs[i + 1])}
           n == CHOOSE i \in stops : \A j \in stops : i <= j
       IN  <<SubSeq(cs, 1, n)>> \o Runs(SubSeq(cs, n + 1, Len(cs)))

(* Words of a sequence of runs: *)
RECURSIVE WordsOfRuns(_)
WordsOfRuns(rs) ==
  IF rs = <<>> THEN <<>>
  ELSE
    LET first == Head(rs)
        hasNext == Len(rs) > 1
    IN
      IF IsLowerChar(first[1])
      THEN <<Word(first)>> \o WordsOfRuns(Tail(rs))
      ELSE IF ~hasNext
      THEN <<IF Len(first) = 1 THEN Word(first) ELSE Initialism(first)>>
      ELSE
        LET next == rs[2]
            rest == SubSeq(rs, 3, Len(rs))
        IN
          IF Len(first) = 1
          THEN <<Word(first \o next)>> \o WordsOfRuns(rest)
          ELSE IF next = <<"s">>
          THEN <<Initialism(first \o next)>> \o WordsOfRuns(rest)
          ELSE <<Initialism(Front(first)), Word(<<Last(first)>> \o next)>> \o WordsOfRuns(rest)

WordsOf(cs) == WordsOfRuns(Runs(cs))

RECURSIVE Join(_, _)
Join(ss, sep) ==
  IF ss = <<>> THEN <<>>
  ELSE IF Len(ss) = 1 THEN Head(ss)
  ELSE Head(ss) \o <<sep>> \o Join(Tail(ss), sep)

SnakeOf(ws) == Join([i \in 1..Len(ws) |-> ws[i].low], "_")
CamelOf(ws) == Flat([i \in 1..Len(ws) |-> ws[i].cap])
=============================================================================
