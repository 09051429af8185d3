---------------------------------- MODULE MC_TF ----------------------------------
(* Every chain of up to MaxChain token filters of a pool x every sequence of up to   *)
(* MaxToks tokens of a pool.                                                         *)
EXTENDS TokenFilter, Json, IOUtils
CONSTANTS MaxToks, MaxChain

N == <<78>>  V == <<86>>  X == <<88>>
Tok(t, d) == [t |-> t, d |-> d]
ka == 12363  KA == 12459
Pool == << Tok(<<19968, 21313>>, <<N, X, Star, Star>>),                      \* a numeral, tagged N,X
           Tok(<<KA, KA, LongMark>>, <<N, X, Star, Star, X, X, <<ka, ka>>, <<KA>>, Star>>),
           Tok(<<97, 66>>, <<UNK>>),
           Tok(<<ka>>, <<V>>),                                                \* few details
           Tok(<<KA, LongMark>>, <<N, V, X, Star, <<97>>, X, X, X, X, X, <<66>>>>) >>
Tagged(k, f) == [k |-> k, tags |-> f]
FPool == << [k |-> "comp", kind |-> "ipadic", tags |-> <<<<N, X>>>>, nt |-> <<>>],
            [k |-> "comp", kind |-> "unidic", tags |-> <<<<V>>, <<N, V, X>>>>, nt |-> <<V, X>>],
            [k |-> "jkeep", tags |-> <<<<N, X>>, <<V>>>>],
            [k |-> "jstop", tags |-> <<<<V, Star>>, <<Compound>>>>],
            [k |-> "kkeep", tags |-> <<N, UNK>>],
            [k |-> "kstop", tags |-> <<N>>],
            [k |-> "len", min |-> 2, max |-> 2],
            [k |-> "keepw", words |-> << <<ka>>, <<49, 48>>, <<KA, KA>> >>],
            [k |-> "stopw", words |-> << <<ka>>, <<49>> >>],
            [k |-> "kana", to |-> "hiragana"],
            [k |-> "stem", min |-> 2],
            [k |-> "base", kind |-> "ipadic"],
            [k |-> "read", kind |-> "unidic"],
            [k |-> "map", m |-> << <<<<KA>>, <<ka>>>>, <<<<KA, KA>>, <<19968>>>> >>],
            [k |-> "num", has |-> TRUE, tags |-> <<<<N, X>>>>],
            [k |-> "num", has |-> FALSE, tags |-> <<>>] >>

Seqs == UNION {[1..n -> 1..Len(Pool)] : n \in 0..MaxToks}
Chains == UNION {[1..n -> 1..Len(FPool)] : n \in 0..MaxChain}
MkTokens(s) ==
  FoldLeft(LAMBDA a, i :
     LET b == IF i = 1 THEN 0 ELSE a[i - 1].be
     IN Append(a, [t |-> Pool[s[i]].t, bs |-> b, be |-> b + BLen(Pool[s[i]].t), p |-> i - 1, pl |-> 1,
                   w |-> IF s[i] = 3 THEN "4294967295S" ELSE ToString(s[i]) \o "S", d |-> Pool[s[i]].d]), <<>>, Idx(s))
MFilters(x) == [j \in 1..Len(x.f) |-> FPool[x.f[j]]]
MTokens(x) == MkTokens(x.s)
MCased(x, i, ks) == [j \in 1..Len(ks) |-> ks[j].t]

MCInit == c \in [f : Chains, s : Seqs] /\ TFInit
MCNext == Apply \/ (stage = Len(FiltersOf(c)) /\ UNCHANGED tfvars)
MCSpec == MCInit /\ [][MCNext]_tfvars

ASSUME "EXPORT" \notin DOMAIN IOEnv
       \/ ndJsonSerialize(IOEnv.EXPORT,
            SetToSeq({[fs |-> MFilters([f |-> f, s |-> <<>>]), ks |-> SetToSeq({MkTokens(s) : s \in Seqs})] : f \in Chains}))

F == FiltersOf(c)[stage + 1]
R == Result(F, toks, MCased(c, stage + 1, toks))
Live == stage < Len(FiltersOf(c))

\* positions never decrease, ranges do not overlap, whatever chain ran
Ordered2 == \A i \in 2..Len(toks) : toks[i - 1].p < toks[i].p /\ toks[i - 1].be <= toks[i].bs
\* a token covers as many original tokens as its position length says
Covers == \A i \in 2..Len(toks) : toks[i - 1].p + toks[i - 1].pl <= toks[i].p
SelectsOnly == (Live /\ F.k \in Selecting) => /\ Elems(R) \subseteq Elems(toks) /\ Len(R) <= Len(toks)
                                              /\ \A j \in 1..Len(toks) : Keeps(F, toks[j]) = (toks[j] \in Elems(R))
RewritesOnly == (Live /\ F.k \in Rewriting \cup {"num"}) =>
                  /\ Len(R) = Len(toks) /\ \A j \in 1..Len(R) : [R[j] EXCEPT !.t = toks[j].t] = toks[j]
\* compounds keep all text, all original tokens, and leave no two configured neighbours
Merges == (Live /\ F.k = "comp") =>
  /\ Concat([j \in 1..Len(R) |-> R[j].t]) = Concat([j \in 1..Len(toks) |-> toks[j].t])
  /\ FoldLeft(LAMBDA a, k : a + k.pl, 0, R) = FoldLeft(LAMBDA a, k : a + k.pl, 0, toks)
  /\ \A j \in 1..Len(R) : R[j] \in Elems(toks) \/ R[j].d = CompoundDetails(F)
  /\ \A j \in 2..Len(R) : ~(TagOf(R[j]) \in Tags(F.tags) /\ R[j] \in Elems(toks) /\ TagOf(R[j-1]) \in Tags(F.tags) /\ R[j-1] \in Elems(toks))
\* keep and stop filters with the same setting split the tokens
Complement == (Live /\ F.k = "jkeep") => Len(R) + Len(Result([F EXCEPT !.k = "jstop"], toks, <<>>)) = Len(toks)
==================================================================================
