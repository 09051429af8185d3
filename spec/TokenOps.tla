-------------------------------- MODULE TokenOps --------------------------------
(* What token filters do to a sequence of tokens.                                    *)
(* A token is [t: text, bs, be: byte range, p: position, pl: position length,        *)
(* w: word id, d: details]; texts and details are sequences of code points.          *)
EXTENDS Number, CharFilter

Star == <<42>>
UNK == <<85, 78, 75>>
Compound == <<35079, 21512, 35486>>   \* 複合語

Pad(tag, n) == tag \o [j \in 1..(n - Len(tag)) |-> Star]
Tags(fs) == {Pad(fs[j], 4) : j \in 1..Len(fs)}
\* the part-of-speech tag of a token: four details, or the first one alone
TagOf(k) == IF Len(k.d) >= 4 THEN SubSeq(k.d, 1, 4) ELSE IF k.d = <<>> THEN Pad(<<>>, 4) ELSE Pad(<<k.d[1]>>, 4)
Elems(s) == {s[j] : j \in 1..Len(s)}

(* --- selecting filters --- *)
Selecting == {"keepw", "stopw", "len", "jkeep", "jstop", "kkeep", "kstop"}
Keeps(f, k) ==
  CASE f.k = "keepw" -> k.t \in Elems(f.words)
    [] f.k = "stopw" -> k.t \notin Elems(f.words)
    [] f.k = "len"   -> (f.min < 0 \/ f.min <= Len(k.t)) /\ (f.max < 0 \/ Len(k.t) <= f.max)
    [] f.k = "jkeep" -> TagOf(k) \in Tags(f.tags)
    [] f.k = "jstop" -> TagOf(k) \notin Tags(f.tags)
    [] f.k = "kkeep" -> k.d # <<>> /\ k.d[1] \in Elems(f.tags)
    [] f.k = "kstop" -> ~(k.d # <<>> /\ k.d[1] \in Elems(f.tags))

(* --- rewriting filters --- *)
Rewriting == {"lower", "upper", "map", "kana", "stem", "base", "read", "kread"}
ToHira(ch) == IF ch \in (12449..12534) \cup (12541..12543) THEN ch - 96 ELSE ch
ToKata(ch) == IF ch \in (12353..12438) \cup (12445..12447) THEN ch + 96 ELSE ch
Each(op(_), t) == [j \in 1..Len(t) |-> op(t[j])]
LongMark == 12540
Katakana == 12448..12543
\* detail n of a known token, or its text
DetailOr(k, n) == IF k.d # <<>> /\ k.d[1] # UNK /\ Len(k.d) >= n THEN k.d[n] ELSE k.t
\* u: the text in lower or upper case, given
NewText(f, k, u) ==
  CASE f.k \in {"lower", "upper"} -> u
    [] f.k = "map"  -> OutText(MapFrom(f.m, k.t, 0))
    [] f.k = "kana" -> IF f.to = "hiragana" THEN Each(ToHira, k.t) ELSE Each(ToKata, k.t)
    [] f.k = "stem" -> IF k.t # <<>> /\ k.t[Len(k.t)] = LongMark /\ Len(k.t) > f.min /\ (\A j \in 1..Len(k.t) : k.t[j] \in Katakana)
                       THEN SubSeq(k.t, 1, Len(k.t) - 1) ELSE k.t
    [] f.k = "base" -> CASE f.kind \in {"ipadic", "ipadic-neologd"} -> DetailOr(k, 7)
                         [] f.kind = "unidic" -> DetailOr(k, 11)
                         [] OTHER -> k.t
    [] f.k = "read" -> CASE f.kind \in {"ipadic", "ipadic-neologd"} -> DetailOr(k, 8)
                         [] f.kind = "unidic" -> DetailOr(k, 7)
                         [] OTHER -> k.t
    [] f.k = "kread" -> DetailOr(k, 4)

(* --- compound words --- *)
CompoundDetails(f) ==
  LET n == IF f.kind = "unidic" THEN 17 ELSE 9
      head == IF f.nt = <<>> THEN <<Compound>> ELSE Pad(f.nt, 4)
  IN Pad(head, n)
Join(f, a, b) == [a EXCEPT !.t = @ \o b.t, !.be = b.be, !.pl = @ + b.pl, !.d = CompoundDetails(f)]
\* a run of configured tags grows while the next token has one, too
Compounds(f, ks) ==
  LET in(k) == TagOf(k) \in Tags(f.tags)
  IN FoldLeft(LAMBDA a, i :
        IF i > 1 /\ in(ks[i]) /\ in(ks[i - 1])
        THEN [a EXCEPT ![Len(a)] = Join(f, @, ks[i])]
        ELSE Append(a, ks[i]), <<>>, Idx(ks))

(* --- numerals --- *)
Counts(f, k) == ~f.has \/ TagOf(k) \in Tags(f.tags)

(* --- the result of a filter: what the outcome must be, given the tokens before --- *)
\* us: the case-converted texts
Result(f, ks, us) ==
  IF f.k \in Selecting THEN SelectSeq(ks, LAMBDA k : Keeps(f, k))
  ELSE IF f.k \in Rewriting THEN [j \in 1..Len(ks) |-> [ks[j] EXCEPT !.t = NewText(f, ks[j], us[j])]]
  ELSE IF f.k = "comp" THEN Compounds(f, ks)
  ELSE [j \in 1..Len(ks) |-> IF Counts(f, ks[j]) THEN [ks[j] EXCEPT !.t = Rewrite(@)] ELSE ks[j]]

\* os is a permitted outcome
Permitted(f, ks, us, os) ==
  IF f.k # "num" THEN os = Result(f, ks, us)
  ELSE /\ Len(os) = Len(ks)
       /\ \A j \in 1..Len(ks) :
            /\ [os[j] EXCEPT !.t = ks[j].t] = ks[j]
            /\ IF Counts(f, ks[j]) THEN NumberOk(ks[j].t, os[j].t) ELSE os[j].t = ks[j].t

PropOf(f) == IF f.k \in Selecting THEN "K01" ELSE IF f.k \in Rewriting THEN "K02" ELSE IF f.k = "comp" THEN "K03" ELSE "K04"
==================================================================================
