--------------------------------- MODULE MC_Config ---------------------------------
(* Every filter, tokenizer and analyzer configuration that differs from a valid one   *)
(* in one setting (or two, with Two).                                                 *)
EXTENDS Config, Json, IOUtils
CONSTANTS Two

S(s, u) == [j |-> "str", s |-> s, u |-> u]
I(n) == [j |-> "int", n |-> n]
B(b) == [j |-> "bool", b |-> b]
A(a) == [j |-> "arr", a |-> a]
F(k, u, v) == [k |-> k, u |-> u, v |-> v]
K(k, v) == F(k, <<>>, v)     \* a field whose name is no text
O(f) == [j |-> "obj", f |-> f]
Txt == S("a", <<97>>)
AnyValue == {None, Null, B(TRUE), I(0), I(1), I(-1), [j |-> "float"], [j |-> "big"], Txt, S("", <<>>), A(<<>>), A(<<Txt>>), A(<<I(1)>>),
             A(<<Txt, Null>>), O(<<>>), O(<<F("a", <<97>>, Txt)>>)}
KindNames == {S(s, <<>>) : s \in Kinds \cup {"IPADIC", "mecab", "ipadic ", "nfc", "nfd", "nfkc", "nfkd", "NFC", "hiragana", "katakana", "Hiragana", "kana"}}
TagValues == {A(<<S("a,b,c,d", <<97,44,98,44,99,44,100>>)>>), A(<<S("a,b,c,d,e", <<97,44,98,44,99,44,100,44,101>>)>>),
              A(<<Txt, S("a,b,c,d,", <<97,44,98,44,99,44,100,44>>)>>), S("a,b,c,d,e", <<97,44,98,44,99,44,100,44,101>>),
              S("a,b", <<97,44,98>>)}
MapValues == {O(<<F("a", <<97>>, I(1))>>), O(<<F("", <<>>, Txt)>>), O(<<F("NUL", <<97, 0>>, Txt)>>), O(<<F("a", <<97>>, S("", <<>>)), F("ab", <<97, 98>>, S("い", <<12356>>))>>)}
PatValues == {S(s, <<>>) : s \in Malformed} \cup {S("a", <<97>>), S("a+", <<97, 43>>), S("(a)b", <<40, 97, 41, 98>>), S("[ab]", <<91, 97, 98, 93>>), S("é|い", <<233, 124, 12356>>)}

\* <<family, kind, valid settings>>
Bases == <<
 <<"char", "mapping", <<K("mapping", O(<<F("a", <<97>>, S("b", <<98>>))>>))>>>>,
 <<"char", "regex", <<K("pattern", S("a+", <<97, 43>>)), K("replacement", Txt)>>>>,
 <<"char", "unicode_normalize", <<K("kind", S("nfkc", <<>>))>>>>,
 <<"char", "japanese_iteration_mark", <<K("normalize_kanji", B(TRUE)), K("normalize_kana", B(FALSE))>>>>,
 <<"token", "mapping", <<K("mapping", O(<<F("a", <<97>>, S("b", <<98>>))>>))>>>>,
 <<"token", "keep_words", <<K("words", A(<<Txt>>))>>>>,
 <<"token", "stop_words", <<K("words", A(<<Txt>>))>>>>,
 <<"token", "length", <<K("min", I(2)), K("max", I(3))>>>>,
 <<"token", "japanese_keep_tags", <<K("tags", A(<<Txt>>))>>>>,
 <<"token", "japanese_stop_tags", <<K("tags", A(<<Txt>>))>>>>,
 <<"token", "korean_keep_tags", <<K("tags", A(<<Txt>>))>>>>,
 <<"token", "korean_stop_tags", <<K("tags", A(<<Txt>>))>>>>,
 <<"token", "lowercase", <<>>>>, <<"token", "uppercase", <<>>>>, <<"token", "korean_reading_form", <<>>>>,
 <<"token", "japanese_kana", <<K("kind", S("hiragana", <<>>))>>>>,
 <<"token", "japanese_katakana_stem", <<K("min", I(2))>>>>,
 <<"token", "japanese_base_form", <<K("kind", S("unidic", <<>>))>>>>,
 <<"token", "japanese_reading_form", <<K("kind", S("ipadic", <<>>))>>>>,
 <<"token", "japanese_compound_word", <<K("kind", S("unidic", <<>>)), K("tags", A(<<Txt>>)), K("new_tag", S("a,b", <<97, 44, 98>>))>>>>,
 <<"token", "japanese_number", <<K("tags", A(<<Txt>>))>>>>,
 <<"char", "lowercase", <<>>>>, <<"token", "regex", <<K("pattern", Txt), K("replacement", Txt)>>>>, <<"token", "nothing", <<>>>>, <<"char", "", <<>>>> >>

Values(k) == AnyValue \cup (CASE k \in {"kind"} -> KindNames [] k \in {"tags", "new_tag", "words"} -> TagValues [] k = "mapping" -> MapValues
                              [] k = "pattern" -> PatValues [] OTHER -> {})
Put(fs, i, v) == IF v = None THEN SubSeq(fs, 1, i - 1) \o SubSeq(fs, i + 1, Len(fs)) ELSE [fs EXCEPT ![i].v = v]
Once(fs) == {fs} \cup {Append(fs, K("extra", Txt))} \cup UNION {{Put(fs, i, v) : v \in Values(fs[i].k)} : i \in 1..Len(fs)}
Mutants(fs) == IF Two THEN UNION {Once(x) : x \in Once(fs)} ELSE Once(fs)
FilterCfgs == UNION {{[fam |-> Bases[b][1], kind |-> Bases[b][2], args |-> a]
                       : a \in {O(fs) : fs \in Mutants(Bases[b][3])} \cup {Null, A(<<>>), I(1), Txt, None}} : b \in 1..Len(Bases)}

Path(p) == S(p, <<>>)
Pen(fs) == O(<<K("decompose", O(fs))>>)
PenBase == << K(PenaltyFields[1], I(1)), K(PenaltyFields[2], I(500)), K(PenaltyFields[3], I(2)), K(PenaltyFields[4], I(-40)) >>
ModeValues == {Null, I(1), Path("normal"), Path("decompose"), Path("search"), Path("Normal"), Path(""), O(<<>>), A(<<>>), O(<<K("decompose", Null)>>),
               O(<<K("search", O(<<>>))>>), O(<<K("decompose", O(PenBase)), K("normal", Null)>>)}
              \cup {Pen(x) : x \in Once(PenBase)}
DictValues == {Null, Path("unidic"), O(<<>>), A(<<>>), O(<<K("path", Path("@none"))>>), O(<<K("path", Path("@B"))>>), O(<<K("path", I(1))>>),
               O(<<K("path", Null), K("kind", Null)>>), O(<<K("kind", Path("klingon"))>>), O(<<K("kind", Path("klingon")), K("path", Path("@A"))>>),
               O(<<K("kind", Null), K("path", Path("@B"))>>), O(<<K("kind", I(1)), K("path", Path("@A"))>>), O(<<K("path", Path("@A")), K("extra", I(1))>>),
               O(<<K("path", Path("@user.csv"))>>)}
              \cup {O(<<K("kind", Path(k))>>) : k \in Kinds} \cup {O(<<K("kind", Path("ko-dic")), K("path", Path("@A"))>>)}
UserValues == {Null, I(1), O(<<>>), Path("@user.csv"), O(<<K("path", Path("@user.bin"))>>), O(<<K("path", Path("@user.csv"))>>), O(<<K("path", Path("@bad.csv")), K("kind", Path("unidic"))>>),
               O(<<K("path", Path("@user.csv")), K("kind", Path("unidic"))>>), O(<<K("path", Path("@none.csv")), K("kind", Path("unidic"))>>),
               O(<<K("path", Path("@user.txt")), K("kind", Path("unidic"))>>), O(<<K("path", Path("@user")), K("kind", Path("unidic"))>>),
               O(<<K("path", Path("@user.csv")), K("kind", Path("klingon"))>>), O(<<K("path", Null), K("kind", Path("unidic"))>>), O(<<K("kind", Path("unidic"))>>),
               O(<<K("path", Path("@bad.bin"))>>), O(<<K("path", Path("@none.bin"))>>), O(<<K("path", Path("@user.bin")), K("kind", Path("unidic"))>>)}
TokBase == << K("dictionary", O(<<K("path", Path("@A"))>>)), K("user_dictionary", O(<<K("path", Path("@user.csv")), K("kind", Path("unidic"))>>)), K("mode", Pen(PenBase)) >>
TokValues(i) == {None} \cup (IF i = 1 THEN DictValues ELSE IF i = 2 THEN UserValues ELSE ModeValues)
TokOnce(fs) == {fs, Append(fs, K("with_details", B(TRUE))), Append(fs, K("Mode", Path("normal")))} \cup UNION {{Put(fs, i, v) : v \in TokValues(i)} : i \in {i \in 1..Len(fs) : i <= 3}}
TokCfgs == TokOnce(TokBase) \cup UNION {{Put(Put(TokBase, 3, w), i, v) : v \in TokValues(i)} : i \in 1..2, w \in {None, Path("normal")}}

Flt(k, a) == O(<<K("kind", Path(k)), K("args", a)>>)
BadFlt == {O(<<>>), O(<<K("kind", Null)>>), O(<<K("kind", I(1)), K("args", O(<<>>))>>), O(<<K("args", O(<<>>))>>), Null, I(1), Path("lowercase"), A(<<>>), Flt("klingon", O(<<>>)), O(<<K("kind", Path("mapping"))>>)}
GoodC == <<Flt("mapping", O(<<K("mapping", O(<<F("a", <<97>>, S("b", <<98>>))>>))>>)), Flt("unicode_normalize", O(<<K("kind", Path("nfc"))>>)),
           Flt("japanese_iteration_mark", O(<<K("normalize_kanji", B(TRUE)), K("normalize_kana", B(TRUE))>>))>>
GoodT == <<O(<<K("kind", Path("lowercase"))>>), Flt("length", O(<<>>)), Flt("mapping", O(<<K("mapping", O(<<>>))>>)), Flt("japanese_number", Null)>>
ListOnce(good) ==
  {A(SubSeq(good, 1, n)) : n \in 0..Len(good)} \cup {A(<<good[i], good[k]>>) : i, k \in 1..Len(good)}
  \cup UNION {{A([good EXCEPT ![i] = b]) : b \in BadFlt} : i \in 1..Len(good)}
  \cup {Null, O(<<>>), O(<<K("kind", Path("lowercase"))>>), Path("lowercase"), I(0), B(FALSE), A(GoodT), A(GoodC)}
AnBase == << K("character_filters", A(GoodC)), K("tokenizer", O(TokBase)), K("token_filters", A(GoodT)) >>
AnalyzerCfgs ==
  {None, Null, A(<<>>), I(1)}
  \cup {O(Put(AnBase, 1, v)) : v \in {None} \cup ListOnce(GoodC)}
  \cup {O(Put(AnBase, 2, v)) : v \in {None, Null, A(<<>>), Path("@A")} \cup {O(x) : x \in TokCfgs}}
  \cup {O(Put(AnBase, 3, v)) : v \in {None} \cup ListOnce(GoodT)}
  \cup {O(Append(AnBase, K("extra", I(1))))}

MCConfigOf(x) == x
MCInit == cfg \in AnalyzerCfgs /\ LoadInit
MCNext == LoadNext \/ (status \in {"ready", "failed"} /\ UNCHANGED loadvars)
MCSpec == MCInit /\ [][MCNext]_loadvars

\* an analyzer is ready exactly when every part of it is valid, and has every part in order
Verdicts == [i \in 1..Len(Items(cfg)) |-> ItemVerdict(Items(cfg)[i], Embedded)]
ReadyIsValid == status = "ready" => /\ cfg # None /\ "err" \notin Elems(Verdicts)
                                    /\ built = [i \in 1..Len(Items(cfg)) |-> NameOf(Items(cfg)[i])]
FailedIsInvalid == status = "failed" => cfg = None \/ {"err", "any"} \cap Elems(Verdicts) # {}
NoStuck == status = "loading" => ENABLED LoadNext

\* valid filters have a meaning, and their meaning is one the filters' specification understands
ASSUME \A x \in FilterCfgs : FilterVerdict(x.fam, x.kind, x.args) = "ok" /\ x.args.j = "obj" /\ HasMeaning(x.kind, x.args)
         => LET f == Interpret(x.kind, x.args)
            IN IF x.fam = "char" THEN f.k \in {"map", "rex", "norm", "iter"} ELSE PropOf(f) \in {"K01", "K02", "K03", "K04"}
\* leaving a setting out or making it of another type never turns an invalid configuration into a valid one of the base kind
ASSUME \A b \in 1..Len(Bases) : Bases[b][2] \in TokenKinds /\ Bases[b][1] = "token" => FilterVerdict(Bases[b][1], Bases[b][2], O(Bases[b][3])) = "ok"
ASSUME "EXPORT" \notin DOMAIN IOEnv
       \/ ndJsonSerialize(IOEnv.EXPORT, SetToSeq({[t |-> "filter", fam |-> x.fam, kind |-> x.kind, v |-> x.args] : x \in FilterCfgs})
                                        \o SetToSeq({[t |-> "analyzer", fam |-> "", kind |-> "", v |-> x] : x \in AnalyzerCfgs})
                                        \o SetToSeq({[t |-> "tokenizer", fam |-> "", kind |-> "", v |-> O(x)] : x \in TokCfgs}))
====================================================================================
