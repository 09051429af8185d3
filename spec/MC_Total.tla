--------------------------------- MODULE MC_Total ---------------------------------
(* Texts of odd characters - one or two classes of them, or a class repeated - and    *)
(* configurations with every kind of filter and every kind of penalty: the reference  *)
(* has a result for all of them, and the machine always gets to an end.               *)
EXTENDS Total, Json, IOUtils
CONSTANTS Deep        \* three classes in a row

Classes == <<
  <<97>>, <<90>>, <<49>>, <<65297>>, <<46>>, <<44>>, <<36>>, <<123>>, <<92>>,                      \* latin, digits, punctuation
  <<0>>, <<9>>, <<10>>, <<13>>, <<32>>, <<133>>, <<12288>>, <<8203>>, <<8205>>, <<65279>>,         \* control, white, invisible
  <<12290>>, <<12289>>,                                                                           \* ends of sentences
  <<101, 769>>, <<769>>, <<803, 775>>, <<836>>, <<3640>>, <<6846>>,                       \* combining
  <<4352>>, <<4449>>, <<4520>>, <<44032>>, <<44033>>,                                              \* hangul
  <<12363>>, <<12364>>, <<12399>>, <<12496>>, <<12363, 12441>>, <<12441>>, <<65398, 65438>>, <<65438>>, <<12434>>, <<12540>>, \* kana
  <<12293>>, <<12445>>, <<12446>>, <<12541>>, <<12542>>, <<12347>>,                               \* iteration marks
  <<26481>>, <<20140>>, <<19968>>, <<21315>>, <<20806>>, <<22428>>, <<12295>>, <<28857>>, <<24324>>, \* kanji, numerals
  <<40879>>, <<40880>>, <<63744>>, <<134071>>, <<131072>>,                                         \* the ends of the ideographs
  <<9312>>, <<64257>>, <<65018>>, <<13183>>, <<8491>>, <<304>>, <<223>>, <<7838>>, <<931>>, <<962>>, \* compatibility, case
  <<128512>>, <<128104, 8205, 128105>>, <<127471, 127477>>, <<119134>>,                            \* supplementary
  <<55295>>, <<57344>>, <<65533>>, <<65535>>, <<65536>>, <<917505>>, <<1114111>> >>                \* the ends of the code space
Ix == 1..Len(Classes)
Words(s) == [i \in 1..Len(s) |-> [s |-> Classes[s[i][1]], n |-> s[i][2]]]
One == {<< <<i, n>> >> : i \in Ix, n \in {1, 2, 3, 7, 64}}
Pairs == {<< <<i, 1>>, <<j, 1>> >> : i \in Ix, j \in Ix}
Frames == {<< <<i, 1>>, <<j, n>>, <<i, 1>> >> : i \in {1, 20, 33, 43, 49}, j \in Ix, n \in {1, 2, 5}}
Triples == IF Deep THEN {<< <<i, 1>>, <<j, 1>>, <<k, 1>> >> : i \in Ix, j \in Ix, k \in Ix} ELSE {}
Texts == {<<>>} \cup One \cup Pairs \cup Frames

Chr(x) == [k |-> "chr", c |-> x]
Rx(re, ng, tpl) == [k |-> "rex", re |-> re, ng |-> ng, tpl |-> tpl]
Chars == {
  [k |-> "map", m |-> << <<<<97>>, <<>>>>, <<<<12363, 12441>>, <<12364>>>> >>],
  [k |-> "map", m |-> << <<<<26481>>, <<128512, 128512>>>>, <<<<26481, 20140>>, <<97>>>>, <<<<12290>>, <<>>>> >>],
  [k |-> "map", m |-> <<>>],
  Rx([k |-> "any"], 0, <<>>), Rx([k |-> "any"], 0, << [g |-> 0, s |-> <<>>], [g |-> 0, s |-> <<>>] >>),
  Rx([k |-> "rep", x |-> Chr(97), min |-> 0, max |-> -1, lazy |-> FALSE], 0, << [g |-> -1, s |-> <<98>>] >>),
  Rx([k |-> "rep", x |-> [k |-> "any"], min |-> 1, max |-> -1, lazy |-> TRUE], 0, <<>>)}
  \cup {[k |-> "iter", kanji |-> a, kana |-> b] : a \in BOOLEAN, b \in BOOLEAN}
CharsX == Chars \cup {[k |-> "norm", form |-> x] : x \in {"nfc", "nfd", "nfkc", "nfkd"}}
N == <<21517, 35422>>
Toks == {
  [k |-> "keepw", words |-> << <<97>>, <<>>, <<26481>> >>], [k |-> "stopw", words |-> << <<97>> >>],
  [k |-> "len", min |-> 2, max |-> 1], [k |-> "len", min |-> 0, max |-> -1], [k |-> "len", min |-> -1, max |-> 1],
  [k |-> "jkeep", tags |-> << <<N>>, << <<85, 78, 75>> >> >>], [k |-> "jstop", tags |-> <<>>], [k |-> "kkeep", tags |-> << <<78, 78, 71>> >>], [k |-> "kstop", tags |-> <<>>],
  [k |-> "map", m |-> << <<<<97>>, <<>>>>, <<<<12363>>, <<97, 97>>>> >>],
  [k |-> "kana", to |-> "hiragana"], [k |-> "kana", to |-> "katakana"],
  [k |-> "stem", dflt |-> TRUE, min |-> 3], [k |-> "stem", dflt |-> FALSE, min |-> 1],
  [k |-> "kread"]}
  \cup {[k |-> x, kind |-> d] : x \in {"base", "read"}, d \in {"ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"}}
  \cup {[k |-> "comp", kind |-> d, tags |-> << << <<85, 78, 75>> >> >>, nt |-> nt] : d \in {"ipadic", "unidic", "cc-cedict"}, nt \in {<<>>, <<N, N, N, N>>}}
  \cup {[k |-> "num", has |-> FALSE, tags |-> <<>>], [k |-> "num", has |-> TRUE, tags |-> << << <<85, 78, 75>> >> >>]}
ToksX == Toks \cup {[k |-> "lower"], [k |-> "upper"]}
Top == 2147483647
Modes == {<<>>, <<2, 3000, 7, 1700>>, <<0, Top, 0, Top>>, <<0, -Top, 0, -Top>>, <<1, Top, Top, -Top>>, <<Top, 1, 0, Top>>}
Conf(cf, tf, m) == [cf |-> cf, tf |-> tf, pen |-> m]
ConfsX == {Conf(<<>>, <<>>, m) : m \in Modes} \cup {Conf(<<f>>, <<>>, <<>>) : f \in CharsX} \cup {Conf(<<>>, <<f>>, <<>>) : f \in ToksX}
          \cup {Conf(<<f>>, <<g>>, <<2, 3000, 7, 1700>>) : f \in {[k |-> "norm", form |-> "nfkd"], [k |-> "norm", form |-> "nfc"], [k |-> "iter", kanji |-> TRUE, kana |-> TRUE]},
                                          g \in {[k |-> "num", has |-> FALSE, tags |-> <<>>], [k |-> "kana", to |-> "hiragana"], [k |-> "comp", kind |-> "unidic", tags |-> << << <<85, 78, 75>> >> >>, nt |-> <<>>]}}

\* the reference has no result for case conversion and normalization without Unicode's tables
MChars(x) == x.cf
MFilters(x) == x.tf
Spell(t) == Concat([i \in 1..Len(t) |-> Concat([j \in 1..t[i][2] |-> Classes[t[i][1]]])])
MOrig(x) == Spell(x.t)
MPieces(x, i, t) == Pieces(x.cf[i], t, <<>>, <<>>, <<>>)
\* one token for each character, or one for all of them
Unk == <<<<85, 78, 75>>>>
Tk(t, b, p) == [t |-> t, bs |-> b, be |-> b + BLen(t), p |-> p, pl |-> 1, w |-> "U", d |-> Unk]
MTokens(x, t) ==
  {IF t = <<>> THEN <<>> ELSE <<Tk(t, 0, 0)>>,
   FoldLeft(LAMBDA ks, ch : Append(ks, Tk(<<ch>>, IF ks = <<>> THEN 0 ELSE ks[Len(ks)].be, Len(ks))), <<>>, t)}
MResult(x, i, ks) == Result(x.tf[i], ks, <<>>)
Short == {t \in Texts : (\A i \in 1..Len(t) : t[i][2] <= 3) /\ (Deep \/ Len(t) # 2 \/ (t[1][1] + t[2][1]) % 4 = 0)}
MCInit == c \in [cf : {<<>>} \cup {<<f>> : f \in Chars}, tf : {<<>>}, t : Short] \cup [cf : {<<>>}, tf : {<<f>> : f \in Toks}, t : One \cup {<< <<i, 1>>, <<j, 1>> >> : i \in Ix, j \in {1, 10, 30, 39, 55}}] /\ PInit
MCSpec == MCInit /\ [][TotalNext \/ (Ended /\ UNCHANGED pvars)]_pvars /\ WF_pvars(TotalNext)

ASSUME "EXPORT" \notin DOMAIN IOEnv
       \/ ndJsonSerialize(IOEnv.EXPORT, SetToSeq({[conf |-> x] : x \in ConfsX}) \o SetToSeq({[text |-> Words(t)] : t \in Texts \cup Triples}) \o [i \in Ix |-> [class |-> Classes[i]]])

Ends == <>Ended
\* whatever a filter makes of a text is a text again
TextAgain == \A i \in 1..Len(cur) : Scalar(cur[i])
TokensAgain == phase \in {"tokens", "done"} => \A k \in Elems(toks) : k.bs <= k.be /\ (\A i \in 1..Len(k.t) : Scalar(k.t[i])) /\ (\A i \in 1..Len(k.d) : \A j \in 1..Len(k.d[i]) : Scalar(k.d[i][j]))
=====================================================================================
