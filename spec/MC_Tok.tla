---------------------------------- MODULE MC_Tok ----------------------------------
(* Exhaustive small scope for Tokenizer: every world of a family (which words exist, *)
(* which categories invoke or group, user dictionary or not, connection matrix) x    *)
(* every text over the alphabet up to MaxLen x normal and decompose mode.            *)
(* The same worlds and texts are exported and replayed on the real tokenizer.        *)
EXTENDS Tokenizer, Json, TLC, IOUtils

CONSTANTS MaxLen, Rich   \* Rich: the larger family

A == 12354   \* hiragana
B == 26481   \* kanji
D == 12290   \* delimiter

Row(s, l, r, cost, d) == [s |-> s, l |-> l, r |-> r, c |-> cost, d |-> d, m |-> FALSE, w |-> <<>>]
Pool == << Row(<<A>>, 0, 1, 5, <<"d1", "x">>),
           Row(<<A, B>>, 1, 0, 4, <<"d2", "">>),
           Row(<<B>>, 1, 1, 7, <<"d3", "y">>),
           Row(<<B, B, A>>, 0, 0, -3, <<"d4", "z">>),
           Row(<<A, B>>, 0, 1, 6, <<"d5", "w">>) >>
UPool == << [s |-> <<A, B>>, l |-> 0, r |-> 0, c |-> -10000, m |-> TRUE, w |-> <<"u1", "yomi">>,
             d |-> SimpleDetails("unidic", "", "u1", "yomi")],
            [s |-> <<B>>, l |-> 0, r |-> 0, c |-> -10000, m |-> TRUE, w |-> <<"u2", "yomi">>,
             d |-> SimpleDetails("unidic", "", "u2", "yomi")] >>
Mats == << <<<<0, 3>>, <<-2, 8>>>>, <<<<5, -4>>, <<0, 1>>>> >>

Lacking ==
  {[kind |-> "unidic", sys |-> SetToSeq({Pool[i] : i \in S}), usr |-> IF u = 0 THEN <<>> ELSE <<UPool[u]>>, hasu |-> u # 0,
    cats |-> <<[n |-> "DEFAULT", inv |-> f[1], grp |-> f[2]], [n |-> "K", inv |-> f[3], grp |-> f[4]]>>,
    rng  |-> <<[lo |-> B, hi |-> B, cs |-> IF two THEN <<2, 1>> ELSE <<2>>]>>, unk |-> x, mat |-> Mats[1]] :
      S \in {{1}, {2, 5}}, u \in IF Rich THEN {0, 1} ELSE {0}, f \in [1..4 -> BOOLEAN], two \in BOOLEAN,
      x \in {<<>>, <<[k |-> 2, l |-> 1, r |-> 0, c |-> 2]>>}}
Family ==
  {[kind |-> "unidic",
    sys  |-> SetToSeq({Pool[i] : i \in S \cup {4}}),
    usr  |-> IF u = 0 THEN <<>> ELSE <<UPool[u]>>,
    hasu |-> u # 0,
    cats |-> <<[n |-> "DEFAULT", inv |-> f[1], grp |-> f[2]], [n |-> "K", inv |-> f[3], grp |-> f[4]]>>,
    rng  |-> <<[lo |-> B, hi |-> B, cs |-> IF two THEN <<2, 1>> ELSE <<2>>]>>,
    unk  |-> <<[k |-> 1, l |-> 0, r |-> 1, c |-> 9], [k |-> 2, l |-> 1, r |-> 0, c |-> 2], [k |-> 2, l |-> 0, r |-> 0, c |-> 6]>>,
    mat  |-> Mats[m]] :
      S \in (IF Rich THEN SUBSET {1, 2, 3, 5} ELSE {{}, {1, 2}, {1, 3}, {2, 3, 5}}),
      u \in (IF Rich THEN {0, 1, 2} ELSE {0, 1}),
      f \in [1..4 -> BOOLEAN], two \in BOOLEAN, m \in (IF Rich THEN {1, 2} ELSE {1})}

Texts == UNION {[1..n -> {A, B, D}] : n \in 0..MaxLen}
Pens == {<<>>, <<1, 4, 2, 3>>}

\* c is the input itself
MWorld(x) == x.w
MText(x)  == x.t
MPen(x)   == x.pen

Worlds == Family \cup Lacking
MCInit == /\ c \in [w : Worlds, t : Texts, pen : Pens]
          /\ TokInit
MCNext == TokNext \/ (phase = "done" /\ UNCHANGED tvars)
MCSpec == MCInit /\ [][MCNext]_tvars

ASSUME "EXPORT" \notin DOMAIN IOEnv
       \/ ndJsonSerialize(IOEnv.EXPORT,
            SetToSeq({[world |-> w, texts |-> SetToSeq(Texts), pens |-> SetToSeq(Pens)] : w \in Worlds}))

\* --- what the lattice must guarantee, stated over all paths, without dynamic programming
RECURSIVE AllPaths(_, _)
\* all costs of paths from the start to (and including) edge x, which ends at q
AllPaths(x, q) ==
  IF x.k = "B" THEN {0}
  ELSE UNION {{v + Conn(c.w, Entry(c.w, y.k, y.i).r, Entry(c.w, x.k, x.i).l) + PenaltyOf(y, x.s)
                 + Entry(c.w, x.k, x.i).c : v \in AllPaths(y, x.s)} : y \in lat[x.s + 1]}

\* dynamic programming finds the optimum: every edge's cost is the least over all paths to it
Optimal == SentenceComplete =>
             \A q \in 1..Len(lat) : \A x \in lat[q] : x.pc = SetMin(AllPaths(x, q - 1))
\* a sentence can always be segmented
AlwaysReachable == (SentenceComplete /\ \A k \in 1..Len(c.w.cats) : \E u \in 1..Len(c.w.unk) : c.w.unk[u].k = k) => Reachable
\* in any case, when words of the dictionary alone make up a sentence
RECURSIVE MadeUp(_, _)
MadeUp(t, p) == p = Len(t) \/ \E i \in 1..Len(c.w.sys) : OccursAt(c.w.sys[i].s, t, p) /\ MadeUp(t, p + Len(c.w.sys[i].s))
WordsReach == SentenceComplete /\ MadeUp(Sent, 0) => Reachable
\* words are not empty, stay inside the sentence, and start where some path arrives
WellFormed == phase = "expand" =>
                \A q \in 1..Len(lat) : \A x \in lat[q] : x.k # "B" => x.s < q - 1 /\ lat[x.s + 1] # {}
\* known words match the text
KnownMatch == phase = "expand" =>
                \A q \in 1..Len(lat) : \A x \in lat[q] :
                   x.k \in {"S", "U"} => SubSeq(Sent, x.s + 1, q - 1) = Entry(c.w, x.k, x.i).s
\* in normal mode unknown words do not start inside the unknown word that was opened last
UnkSpacing == (phase = "expand" /\ c.pen = <<>>) =>
                \A q \in 1..Len(lat) : \A x \in lat[q] : x.k = "X" => x.s <= pos /\ q - 1 <= SetMax({ue, q - 1})
\* sentences partition the text and only the last may lack a delimiter
SplitOk == Concat(Sentences(c.t)) = c.t
           /\ \A i \in 1..Len(Sentences(c.t)) :
                LET s == Sentences(c.t)[i]
                IN s # <<>> /\ (i < Len(Sentences(c.t)) => s[Len(s)] \in Delims)
                   /\ \A j \in 1..(Len(s) - 1) : s[j] \notin Delims
\* penalties never make a path cheaper, and the user dictionary never makes it dearer
PenaltySane == \A n \in 0..Len(c.t) : Penalty(c.pen, SubSeq(c.t, 1, n)) >= 0
====================================================================================
