--------------------------------- MODULE Pipeline ---------------------------------
(* The analyzer: character filters in order, then the tokenizer on the text they      *)
(* leave, then token filters in order; at the end the byte ranges are traced back     *)
(* through the character filters to the original text.                                *)
(* What the tokenizer and each filter do is a parameter.                              *)
EXTENDS TokenOps

CONSTANTS CharsOf(_), FiltersOf(_), OrigOf(_), PiecesOf(_, _, _), TokensOf(_, _), ResultOf(_, _, _)
\* PiecesOf(c, i, t): what character filter i cuts t into; TokensOf(c, t): the set of token sequences
\* the tokenizer may cut t into; ResultOf(c, i, ks): what token filter i makes of ks

VARIABLES c, phase, step, cur, exts, toks
pvars == <<c, phase, step, cur, exts, toks>>

PInit == phase = "chars" /\ step = 0 /\ cur = OrigOf(c) /\ exts = <<>> /\ toks = <<>>

CharStep ==
  /\ phase = "chars" /\ step < Len(CharsOf(c))
  /\ \E ps \in {PiecesOf(c, step + 1, cur)} : cur' = OutText(ps) /\ exts' = Append(exts, Extents(ps))
  /\ step' = step + 1 /\ UNCHANGED <<c, phase, toks>>
Tokenize ==
  /\ phase = "chars" /\ step = Len(CharsOf(c))
  /\ toks' \in TokensOf(c, cur)
  /\ phase' = "tokens" /\ step' = 0 /\ UNCHANGED <<c, cur, exts>>
TokenStep ==
  /\ phase = "tokens" /\ step < Len(FiltersOf(c))
  /\ toks' = ResultOf(c, step + 1, toks)
  /\ step' = step + 1 /\ UNCHANGED <<c, phase, cur, exts>>
Finish ==
  /\ phase = "tokens" /\ step = Len(FiltersOf(c))
  /\ phase' = "done" /\ UNCHANGED <<c, step, cur, exts, toks>>
PNext == CharStep \/ Tokenize \/ TokenStep \/ Finish

\* the original offsets that offset q of the filtered text may refer to
RefersTo(q) == UNION {Snaps(OrigOf(c), x) : x \in Through(exts, {q})}
NoRange(k) == [k EXCEPT !.bs = 0, !.be = 0]
\* os is what the analyzer may return (judge: whether ranges are promised)
Returns(os, judge) ==
  /\ Len(os) = Len(toks)
  /\ \A i \in 1..Len(os) : /\ NoRange(os[i]) = NoRange(toks[i])
                           /\ judge => os[i].bs \in RefersTo(toks[i].bs) /\ os[i].be \in RefersTo(toks[i].be)
===================================================================================
