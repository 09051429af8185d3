-------------------------------- MODULE ConfigOps --------------------------------
(* Configurations, as JSON values: which are valid, and what they mean.               *)
(* A JSON value is a record with the kind j: null; bool (b); int (n, below 2^31);     *)
(* big (an integer beyond); float; str (s, and u: code points); arr (a: values);      *)
(* obj (f: fields [k, u: key, v]); none stands for an absent field.                   *)
(* A verdict is "ok", "err", or "any" where nothing is promised.                      *)
EXTENDS TokenOps

None == [j |-> "none"]
Null == [j |-> "null"]
Get(o, n) ==
  IF o.j # "obj" THEN None
  ELSE LET js == {i \in 1..Len(o.f) : o.f[i].k = n} IN IF js = {} THEN None ELSE o.f[CHOOSE i \in js : TRUE].v
Absent(v) == v.j \in {"none", "null"}

Both(a, b) == IF a = "err" \/ b = "err" THEN "err" ELSE IF a = "any" \/ b = "any" THEN "any" ELSE "ok"
AllOf(vs) == FoldLeft(LAMBDA a, v : Both(a, v), "ok", vs)
If(ok) == IF ok THEN "ok" ELSE "err"
Opt(v, w) == IF Absent(v) THEN "ok" ELSE w

(* --- kinds of values --- *)
Bool(v) == If(v.j = "bool")
Str(v) == If(v.j = "str")
Size(v) == If((v.j = "int" /\ v.n >= 0) \/ v.j = "big")
I32(v) == If(v.j = "int")
OneOf(v, S) == IF v.j = "str" THEN If(v.s \in S) ELSE IF v.j = "obj" THEN "any" ELSE "err"
Kinds == {"ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"}
Strs(v) == IF v.j = "arr" THEN AllOf([i \in 1..Len(v.a) |-> Str(v.a[i])]) ELSE "err"
\* the parts of a tag, which commas separate
Parts(u) == FoldLeft(LAMBDA a, ch : IF ch = 44 THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, ch)], <<<<>>>>, u)
Tag(v) == IF v.j = "str" THEN If(Len(Parts(v.u)) <= 4) ELSE "err"
TagList(v) == IF v.j = "arr" THEN AllOf([i \in 1..Len(v.a) |-> Tag(v.a[i])]) ELSE "err"
Mapping(v) == IF v.j # "obj" THEN "err"
              ELSE AllOf([i \in 1..Len(v.f) |-> Both(Str(v.f[i].v), If(0 \notin Elems(v.f[i].u)))])
\* regular expressions that are malformed; others are well formed or not
Malformed == {"(", "[", "*a", "a{2,1}", "(?P<n", "\\", "a)", "[b-a]", "(?z)"}
Patterns == {"a", "a+", "", "(a)b", "[ab]", "é|い"}
Pattern(v) == IF v.j # "str" THEN "err" ELSE IF v.s \in Malformed THEN "err" ELSE IF v.s \in Patterns THEN "ok" ELSE "any"

(* --- filters --- *)
CharKinds == {"mapping", "regex", "unicode_normalize", "japanese_iteration_mark"}
NoArgs == {"lowercase", "uppercase", "korean_reading_form"}
TokenKinds == NoArgs \cup {"keep_words", "stop_words", "length", "japanese_keep_tags", "japanese_stop_tags", "korean_keep_tags",
  "korean_stop_tags", "mapping", "japanese_kana", "japanese_katakana_stem", "japanese_base_form", "japanese_reading_form",
  "japanese_compound_word", "japanese_number"}

Settings(fam, kind, o) ==
  LET g(n) == Get(o, n)
  IN CASE kind = "mapping" -> Mapping(g("mapping"))
       [] kind = "regex" -> Both(Pattern(g("pattern")), Str(g("replacement")))
       [] kind = "unicode_normalize" -> OneOf(g("kind"), {"nfc", "nfd", "nfkc", "nfkd"})
       [] kind = "japanese_iteration_mark" -> Both(Bool(g("normalize_kanji")), Bool(g("normalize_kana")))
       [] kind \in {"keep_words", "stop_words"} -> Strs(g("words"))
       [] kind = "length" -> Both(Opt(g("min"), Size(g("min"))), Opt(g("max"), Size(g("max"))))
       [] kind \in {"japanese_keep_tags", "japanese_stop_tags"} -> TagList(g("tags"))
       [] kind \in {"korean_keep_tags", "korean_stop_tags"} -> Strs(g("tags"))
       [] kind = "japanese_kana" -> OneOf(g("kind"), {"hiragana", "katakana"})
       [] kind = "japanese_katakana_stem" ->
            IF g("min") = None THEN "ok" ELSE IF g("min") = Null THEN "any" ELSE IF g("min") = [j |-> "int", n |-> 0] THEN "err" ELSE Size(g("min"))
       [] kind \in {"japanese_base_form", "japanese_reading_form"} -> OneOf(g("kind"), Kinds)
       [] kind = "japanese_compound_word" ->
            AllOf(<<OneOf(g("kind"), Kinds), TagList(g("tags")), Opt(g("new_tag"), Tag(g("new_tag")))>>)
       [] kind = "japanese_number" -> Opt(g("tags"), TagList(g("tags")))
       [] kind \in NoArgs -> "ok"

\* fam: "char" or "token"; args: the arguments (None if they were not JSON)
FilterVerdict(fam, kind, args) ==
  IF kind \notin (IF fam = "char" THEN CharKinds ELSE TokenKinds) THEN "err"
  ELSE IF kind \in NoArgs THEN "ok"
  ELSE IF args.j = "obj" THEN Settings(fam, kind, args)
  ELSE IF args.j = "arr" THEN "any"
  ELSE IF kind \in {"length", "japanese_katakana_stem", "japanese_number"} THEN "any"
  ELSE "err"

(* --- what a valid configuration means: a filter record of CharFilter / TokenFilter --- *)
Nodes(s) ==   \* the well-formed patterns
  LET chr(x) == [k |-> "chr", c |-> x] a == chr(97) b == chr(98)
  IN CASE s = "a" -> a
       [] s = "a+" -> [k |-> "rep", x |-> a, min |-> 1, max |-> -1, lazy |-> FALSE]
       [] s = "" -> [k |-> "eps"]
       [] s = "(a)b" -> [k |-> "cat", xs |-> <<[k |-> "grp", n |-> 1, x |-> a], b>>]
       [] s = "[ab]" -> [k |-> "set", cs |-> <<<<97, 98>>>>, neg |-> FALSE]
       [] s = "é|い" -> [k |-> "alt", xs |-> <<chr(233), chr(12356)>>]
Nat0(v, d) == IF Absent(v) THEN d ELSE IF v.j = "big" THEN 2147483647 ELSE v.n
Us(v) == [i \in 1..Len(v.a) |-> v.a[i].u]
Tags4(v) == [i \in 1..Len(v.a) |-> Parts(v.a[i].u)]
Pairs(v) == [i \in 1..Len(v.f) |-> <<v.f[i].u, v.f[i].v.u>>]
Interpret(kind, o) ==
  LET g(n) == Get(o, n)
  IN CASE kind = "mapping" -> [k |-> "map", m |-> Pairs(g("mapping"))]
       [] kind = "regex" -> [k |-> "rex", re |-> Nodes(g("pattern").s), ng |-> 1, tpl |-> <<[g |-> -1, s |-> g("replacement").u]>>]
       [] kind = "unicode_normalize" -> [k |-> "norm", form |-> g("kind").s]
       [] kind = "japanese_iteration_mark" -> [k |-> "iter", kanji |-> g("normalize_kanji").b, kana |-> g("normalize_kana").b]
       [] kind = "keep_words" -> [k |-> "keepw", words |-> Us(g("words"))]
       [] kind = "stop_words" -> [k |-> "stopw", words |-> Us(g("words"))]
       [] kind = "length" -> [k |-> "len", min |-> Nat0(g("min"), -1), max |-> Nat0(g("max"), -1)]
       [] kind = "japanese_keep_tags" -> [k |-> "jkeep", tags |-> Tags4(g("tags"))]
       [] kind = "japanese_stop_tags" -> [k |-> "jstop", tags |-> Tags4(g("tags"))]
       [] kind = "korean_keep_tags" -> [k |-> "kkeep", tags |-> Us(g("tags"))]
       [] kind = "korean_stop_tags" -> [k |-> "kstop", tags |-> Us(g("tags"))]
       [] kind = "japanese_kana" -> [k |-> "kana", to |-> g("kind").s]
       [] kind = "japanese_katakana_stem" -> [k |-> "stem", min |-> Nat0(g("min"), 3)]
       [] kind = "japanese_base_form" -> [k |-> "base", kind |-> g("kind").s]
       [] kind = "japanese_reading_form" -> [k |-> "read", kind |-> g("kind").s]
       [] kind = "japanese_compound_word" ->
            [k |-> "comp", kind |-> g("kind").s, tags |-> Tags4(g("tags")), nt |-> IF Absent(g("new_tag")) THEN <<>> ELSE Parts(g("new_tag").u)]
       [] kind = "japanese_number" -> [k |-> "num", has |-> ~Absent(g("tags")), tags |-> IF Absent(g("tags")) THEN <<>> ELSE Tags4(g("tags"))]
       [] kind = "lowercase" -> [k |-> "lower"]
       [] kind = "uppercase" -> [k |-> "upper"]
       [] kind = "korean_reading_form" -> [k |-> "kread"]
\* patterns with a meaning above; a replacement that refers to groups has none
HasMeaning(kind, o) == kind # "regex" \/ (Get(o, "pattern").s \in Patterns /\ 36 \notin Elems(Get(o, "replacement").u))

(* --- tokenizers --- *)
PenaltyFields == <<"kanji_penalty_length_threshold", "kanji_penalty_length_penalty",
                   "other_penalty_length_threshold", "other_penalty_length_penalty">>
DefaultPenalty == <<2, 3000, 7, 1700>>
Penalty(v) == IF v.j # "obj" THEN (IF v.j = "arr" THEN "any" ELSE "err")
              ELSE AllOf([i \in 1..4 |-> IF i \in {1, 3} THEN Size(Get(v, PenaltyFields[i])) ELSE I32(Get(v, PenaltyFields[i]))])
\* a mode: "normal", or an object with the one field decompose
ModeVerdict(v) ==
  IF v.j = "none" THEN "ok"
  ELSE IF v.j = "str" THEN If(v.s = "normal")
  ELSE IF v.j # "obj" THEN "err"
  ELSE IF Len(v.f) # 1 THEN "err"
  ELSE IF v.f[1].k = "decompose" THEN Penalty(v.f[1].v)
  ELSE IF v.f[1].k = "normal" THEN "any" ELSE "err"
\* <<>> is normal
ModeMeaning(v) == IF v.j # "obj" THEN <<>> ELSE [i \in 1..4 |-> Nat0(Get(v.f[1].v, PenaltyFields[i]), 0)]

\* paths of the environment: what is there
Places == [dic |-> {"@A", "@B"}, csv |-> {"@user.csv"}, bin |-> {"@user.bin"}]
\* embedded: the kinds of dictionaries contained in the program
DictVerdict(v, embedded) ==
  LET k == Get(v, "kind") p == Get(v, "path")
  IN IF v.j # "obj" THEN (IF v.j = "arr" THEN "any" ELSE "err")
     ELSE AllOf(<<Opt(k, OneOf(k, Kinds)), Opt(p, Str(p)),
                  IF ~Absent(k) THEN (IF k.j = "str" THEN If(k.s \in embedded) ELSE "any")
                  ELSE IF Absent(p) THEN "err" ELSE IF p.j = "str" THEN If(p.s \in Places.dic) ELSE "err">>)
UserVerdict(v) ==
  LET k == Get(v, "kind") p == Get(v, "path")
  IN IF v.j # "obj" THEN (IF v.j = "arr" THEN "any" ELSE "err")
     ELSE AllOf(<<Opt(k, OneOf(k, Kinds)), Str(p),
                  IF p.j # "str" THEN "err"
                  ELSE IF p.s \in Places.csv THEN (IF Absent(k) THEN "err" ELSE IF k.j # "str" THEN "any" ELSE IF k.s = "unidic" THEN "ok" ELSE "any")
                  ELSE If(p.s \in Places.bin)>>)
TokenizerVerdict(v, embedded) ==
  IF v.j # "obj" THEN "err"
  ELSE LET u == Get(v, "user_dictionary")
       IN AllOf(<<If(\A i \in 1..Len(v.f) : v.f[i].k \in {"dictionary", "user_dictionary", "mode"}),
                  IF Get(v, "dictionary") = None THEN "err" ELSE DictVerdict(Get(v, "dictionary"), embedded),
                  Opt(u, UserVerdict(u)), ModeVerdict(Get(v, "mode"))>>)
\* what was loaded: dictionary, user dictionary?, mode
TokenizerMeaning(v) ==
  [dic |-> IF Absent(Get(Get(v, "dictionary"), "kind")) THEN Get(Get(v, "dictionary"), "path").s ELSE "embedded",
   user |-> ~Absent(Get(v, "user_dictionary")), mode |-> ModeMeaning(Get(v, "mode"))]

(* --- an analyzer is loaded item by item --- *)
ListItems(fam, v) ==
  IF Absent(v) THEN <<>>
  ELSE IF v.j # "arr" THEN <<[what |-> "bad", fam |-> fam, kind |-> "", args |-> None]>>
  ELSE [i \in 1..Len(v.a) |->
          LET k == Get(v.a[i], "kind") x == Get(v.a[i], "args")
          IN IF k.j # "str" THEN [what |-> "bad", fam |-> fam, kind |-> "", args |-> None]
             ELSE [what |-> "filter", fam |-> fam, kind |-> k.s, args |-> IF x = None THEN Null ELSE x]]
Items(v) ==
  ListItems("char", Get(v, "character_filters"))
  \o <<[what |-> "tokenizer", fam |-> "", kind |-> "", args |-> Get(v, "tokenizer")]>>
  \o ListItems("token", Get(v, "token_filters"))
ItemVerdict(it, embedded) ==
  CASE it.what = "bad" -> "err"
    [] it.what = "tokenizer" -> TokenizerVerdict(it.args, embedded)
    [] it.what = "filter" -> FilterVerdict(it.fam, it.kind, it.args)
===================================================================================
