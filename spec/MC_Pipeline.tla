------------------------------- MODULE MC_Pipeline -------------------------------
(* Every choice of filters of two pools x every text up to MaxLen x every way to cut *)
(* the filtered text into tokens.                                                    *)
EXTENDS Pipeline, Json, IOUtils
CONSTANTS MaxLen, MaxChars, MaxFilters

ka == 12363  A == 97  M == 12293
N == <<78>>  V == <<86>>
CPool == << [k |-> "map", m |-> << <<<<A>>, <<>>>>, <<<<ka, A>>, <<M, M, ka>>>> >>],
            [k |-> "map", m |-> << <<<<ka>>, <<A, A>>>>, <<<<A, A>>, <<ka>>>> >>],
            [k |-> "iter", kanji |-> TRUE, kana |-> FALSE] >>
FPool == << [k |-> "len", min |-> 2, max |-> -1],
            [k |-> "stopw", words |-> << <<A>>, <<ka>> >>],
            [k |-> "kana", to |-> "katakana"],
            [k |-> "map", m |-> << <<<<A>>, <<>>>> >>],
            [k |-> "comp", kind |-> "ipadic", tags |-> <<<<N>>>>, nt |-> <<>>],
            [k |-> "jkeep", tags |-> <<<<N>>, <<Compound>>>>] >>
Texts == UNION {[1..n -> {ka, A, M}] : n \in 0..MaxLen}
Picks(pool, max) == UNION {[1..n -> 1..Len(pool)] : n \in 0..max}

\* all ways to cut t: words of 1 or 2 characters; one character is tagged N, two V
RECURSIVE Cuts(_, _, _)
Cuts(t, b, p) ==
  IF t = <<>> THEN {<<>>}
  ELSE UNION {LET x == SubSeq(t, 1, n) k == [t |-> x, bs |-> b, be |-> b + BLen(x), p |-> p, pl |-> 1, w |-> "1S", d |-> IF n = 1 THEN <<N>> ELSE <<V>>]
              IN {<<k>> \o r : r \in Cuts(SubSeq(t, n + 1, Len(t)), b + BLen(x), p + 1)} : n \in {n \in {1, 2} : n <= Len(t)}}

MChars(x) == [j \in 1..Len(x.cf) |-> CPool[x.cf[j]]]
MFilters(x) == [j \in 1..Len(x.tf) |-> FPool[x.tf[j]]]
MOrig(x) == x.t
MPieces(x, i, t) == Pieces(MChars(x)[i], t, <<>>, <<>>, <<>>)
MTokens(x, t) == Cuts(t, 0, 0)
MResult(x, i, ks) == Result(MFilters(x)[i], ks, <<>>)

MCInit == c \in [cf : Picks(CPool, MaxChars), tf : Picks(FPool, MaxFilters), t : Texts] /\ PInit
MCNext == PNext \/ (phase = "done" /\ UNCHANGED pvars)
MCSpec == MCInit /\ [][MCNext]_pvars

ASSUME "EXPORT" \notin DOMAIN IOEnv
       \/ ndJsonSerialize(IOEnv.EXPORT,
            SetToSeq({[cf |-> MChars([cf |-> f, tf |-> g, t |-> <<>>]), tf |-> MFilters([cf |-> f, tf |-> g, t |-> <<>>]), texts |-> SetToSeq(Texts)]
                      : f \in Picks(CPool, MaxChars), g \in Picks(FPool, MaxFilters)}))

OB == {BOffs(OrigOf(c))[j] : j \in 1..(Len(OrigOf(c)) + 1)}
InRange == phase = "done" => \A i \in 1..Len(toks) :
  /\ RefersTo(toks[i].bs) # {} /\ RefersTo(toks[i].be) # {} /\ RefersTo(toks[i].bs) \cup RefersTo(toks[i].be) \subseteq OB
  /\ SetMin(RefersTo(toks[i].bs)) <= SetMax(RefersTo(toks[i].be))
\* tokens stay in order, and what they refer to can be told in order
InOrder == phase = "done" => \A i \in 2..Len(toks) :
  /\ toks[i - 1].be <= toks[i].bs /\ toks[i - 1].p + toks[i - 1].pl <= toks[i].p
  /\ SetMin(RefersTo(toks[i - 1].be)) <= SetMax(RefersTo(toks[i].bs))
\* without character filters the ranges are exact, whatever token filters do to the texts
Exact == (phase = "done" /\ CharsOf(c) = <<>>) => \A i \in 1..Len(toks) : RefersTo(toks[i].bs) = {toks[i].bs} /\ RefersTo(toks[i].be) = {toks[i].be}
\* without any filter the result is the tokenizer's
Plain == (phase = "done" /\ CharsOf(c) = <<>> /\ FiltersOf(c) = <<>>) => toks \in TokensOf(c, OrigOf(c)) /\ Concat([i \in 1..Len(toks) |-> toks[i].t]) = OrigOf(c)
\* what is returned is a possible result of itself
Self == phase = "done" => Returns([i \in 1..Len(toks) |-> [toks[i] EXCEPT !.bs = SetMin(RefersTo(toks[i].bs)), !.be = SetMax(RefersTo(toks[i].be))]], TRUE)
==================================================================================
