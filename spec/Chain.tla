------------------------------- MODULE Chain -------------------------------
(* A chain of character filters as a machine: each step applies the next      *)
(* filter to the current text and remembers the extents of its pieces, through *)
(* which offsets of the final text are traced back to the original.            *)
EXTENDS CharFilter

CONSTANTS ChainOf(_), OrigOf(_), UnicodeOf(_, _)
\* UnicodeOf(c, i): [D, P, g] for the input of filter i

VARIABLES c,      \* the case
          stage,  \* filters applied so far
          cur,    \* current text
          exts    \* extents of the pieces of each filter applied

cvars == <<c, stage, cur, exts>>

ChainInit == stage = 0 /\ cur = OrigOf(c) /\ exts = <<>>

NextPieces == LET u == UnicodeOf(c, stage + 1)
              IN Pieces(ChainOf(c)[stage + 1], cur, u.D, u.P, u.g)

ApplyFilter ==
  /\ stage < Len(ChainOf(c))
  /\ \E ps \in {NextPieces} :
       /\ cur' = OutText(ps)
       /\ exts' = Append(exts, Extents(ps))
  /\ stage' = stage + 1
  /\ UNCHANGED c

\* the original offsets that offset q of the current text may refer to, on character boundaries
RefersTo(q) == UNION {Snaps(OrigOf(c), x) : x \in Through(exts, {q})}
=============================================================================
