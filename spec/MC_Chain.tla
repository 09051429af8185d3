------------------------------ MODULE MC_Chain ------------------------------
(* Every chain of up to MaxChain filters of a pool x every text up to MaxLen.  *)
(* Model-checks what the specification promises, and exports the scenarios.    *)
EXTENDS Chain, Json, IOUtils

CONSTANTS MaxLen, MaxChain

A == 12363  B == 12364  K == 26085  L == 97  MK == 12293  MH == 12446
Alphabet == {A, K, L, MK, MH}
ch(x) == [k |-> "chr", c |-> x]
rep(x, a, b, z) == [k |-> "rep", x |-> x, min |-> a, max |-> b, lazy |-> z]
cat(xs) == [k |-> "cat", xs |-> xs]
alt(xs) == [k |-> "alt", xs |-> xs]
grp(n, x) == [k |-> "grp", n |-> n, x |-> x]
lit(s) == [g |-> -1, s |-> s]
ref(n) == [g |-> n, s |-> <<>>]
rex(re, ng, tpl) == [k |-> "rex", re |-> re, ng |-> ng, tpl |-> tpl]

Pool == <<
  [k |-> "map", m |-> << <<<<A>>, <<>>>>, <<<<A, L>>, <<K, K>>>>, <<<<L, L>>, <<A>>>> >>],
  [k |-> "map", m |-> << <<<<K>>, <<L>>>>, <<<<L>>, <<K, A>>>>, <<<<MK, MK>>, <<MK>>>> >>],
  [k |-> "map", m |-> << >>],
  rex(rep(ch(L), 1, -1, FALSE), 0, <<lit(<<K>>)>>),
  rex(rep(ch(L), 0, -1, FALSE), 0, <<lit(<<A>>), ref(0)>>),
  rex(cat(<<grp(1, ch(K)), grp(2, rep([k |-> "any"], 0, 1, FALSE))>>), 2, <<ref(2), ref(1)>>),
  rex(alt(<<ch(A), cat(<<ch(A), ch(K)>>)>>), 0, <<>>),
  rex([k |-> "bol"], 0, <<lit(<<L>>)>>),
  rex(cat(<<rep([k |-> "set", cs |-> <<<<L, L>>>>, neg |-> TRUE], 1, 2, TRUE), [k |-> "eol"]>>), 0, <<lit(<<L, L>>)>>),
  [k |-> "iter", kanji |-> TRUE, kana |-> TRUE],
  [k |-> "iter", kanji |-> FALSE, kana |-> TRUE],
  [k |-> "iter", kanji |-> TRUE, kana |-> FALSE] >>

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Chains == UNION {[1..n -> 1..Len(Pool)] : n \in 0..MaxChain}

MChain(x) == [j \in 1..Len(x.f) |-> Pool[x.f[j]]]
MOrig(x) == x.t
MUni(x, i) == [D |-> <<>>, P |-> <<>>, g |-> <<>>]

MCInit == c \in [f : Chains, t : Texts] /\ ChainInit
MCNext == ApplyFilter \/ (stage = Len(ChainOf(c)) /\ UNCHANGED cvars)
MCSpec == MCInit /\ [][MCNext]_cvars

ASSUME "EXPORT" \notin DOMAIN IOEnv
       \/ ndJsonSerialize(IOEnv.EXPORT,
            SetToSeq({[fs |-> MChain([f |-> f, t |-> <<>>]), texts |-> SetToSeq(Texts)] : f \in Chains}))

\* the pieces cut the current text, whatever the filter
PiecesCut == stage < Len(ChainOf(c)) =>
  /\ InText(NextPieces) = cur
  /\ \A j \in 1..Len(NextPieces) : LET p == NextPieces[j] IN ~p.rep => p.i = p.o

\* mapping: no key starts at a copied character; replaced keys are the longest there
MapGreedy == (stage < Len(ChainOf(c)) /\ ChainOf(c)[stage + 1].k = "map") =>
  LET m == ChainOf(c)[stage + 1].m
      at(j) == Len(InText(SubSeq(NextPieces, 1, j - 1)))
  IN \A j \in 1..Len(NextPieces) :
       LET p == NextPieces[j] ks == KeysAt(m, cur, at(j))
       IN IF p.rep THEN \E x \in ks : m[x] = <<p.i, p.o>> /\ \A y \in ks : Len(m[y][1]) <= Len(p.i)
          ELSE ks = {}

\* regular expressions: no match starts inside a copied stretch and stays inside it
RexLeftmost == (stage < Len(ChainOf(c)) /\ ChainOf(c)[stage + 1].k = "rex") =>
  LET f == ChainOf(c)[stage + 1]
      at(j) == Len(InText(SubSeq(NextPieces, 1, j - 1)))
  IN \A j \in 1..Len(NextPieces) :
       ~NextPieces[j].rep =>
         LET r == Mat(f.re, cur, [p |-> at(j), g |-> [q \in 1..f.ng |-> <<>>]])
         IN \/ r = <<>>
            \/ (r[1].p = at(j) /\ j > 1 /\ NextPieces[j - 1].rep)   \* empty, right after a match

\* marks vanish when enough text precedes them, and nothing else changes
IterMarks == (stage < Len(ChainOf(c)) /\ ChainOf(c)[stage + 1].k = "iter") =>
  LET f == ChainOf(c)[stage + 1] o == OutText(NextPieces)
  IN /\ Len(o) = Len(cur)
     /\ \A p \in 1..Len(cur) : IF IsMark(f, cur[p]) THEN RunStart(f, cur, p - 1) >= RunEnd(f, cur, p - 1) - RunStart(f, cur, p - 1) => ~IsMark(f, o[p]) ELSE o[p] = cur[p]

\* offsets: every boundary refers to at least one place; ends map to ends; order can be kept
OffsetsOk == \A j \in 1..(Len(cur) + 1) :
  LET q == BOffs(cur)[j] R == RefersTo(q)
  IN /\ R # {} /\ R \subseteq {BOffs(OrigOf(c))[x] : x \in 1..(Len(OrigOf(c)) + 1)}
     /\ (j = 1 => 0 \in R)
     /\ (j = Len(cur) + 1 => BLen(OrigOf(c)) \in R)
     /\ \A i \in 1..j : SetMin(RefersTo(BOffs(cur)[i])) <= SetMax(R)
==============================================================================
