---------------------------------- MODULE Text ----------------------------------
(* Texts are sequences of Unicode scalar values.  Byte positions are UTF-8.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

ULen(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

BLen(t) == FoldLeft(LAMBDA a, c : a + ULen(c), 0, t)

\* Byte offset of every character boundary: a sequence of Len(t)+1 numbers.
BOffs(t) == FoldLeft(LAMBDA a, c : Append(a, a[Len(a)] + ULen(c)), <<0>>, t)

Concat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

\* s occurs in t at character position p (0-based)
OccursAt(s, t, p) == /\ p + Len(s) <= Len(t)
                     /\ \A j \in 1..Len(s) : t[p + j] = s[j]

Idx(s) == [i \in 1..Len(s) |-> i]

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

(* Sentence delimiters: IDEOGRAPHIC FULL STOP, IDEOGRAPHIC COMMA, newline, tab *)
Delims == {12290, 12289, 10, 9}

\* end (exclusive, 0-based) of the sentence that starts at f < Len(t)
SentEnd(t, f) ==
  LET ds == {j \in (f+1)..Len(t) : t[j] \in Delims}
  IN IF ds = {} THEN Len(t) ELSE SetMin(ds)

RECURSIVE SentencesFrom(_, _)
SentencesFrom(t, f) ==
  IF f >= Len(t) THEN <<>>
  ELSE LET e == SentEnd(t, f) IN <<SubSeq(t, f + 1, e)>> \o SentencesFrom(t, e)
Sentences(t) == SentencesFrom(t, 0)
=================================================================================
