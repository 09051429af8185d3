------------------------------- MODULE CharFilter -------------------------------
(* Character filters.  Applying a filter to a text cuts the text into pieces       *)
(* [i |-> input, o |-> output, rep |-> replaced?]: the inputs concatenated are the  *)
(* text, the outputs concatenated the filtered text.  Offsets of the filtered text  *)
(* refer to the original through the pieces.                                        *)
EXTENDS Text, TLC

Copy(ch) == [i |-> <<ch>>, o |-> <<ch>>, rep |-> FALSE]
Repl(i, o) == [i |-> i, o |-> o, rep |-> TRUE]

InText(ps)  == Concat([j \in 1..Len(ps) |-> ps[j].i])
OutText(ps) == Concat([j \in 1..Len(ps) |-> ps[j].o])

(* --- mapping: m is a sequence of <<key, value>>; longest key, left to right ------ *)
KeysAt(m, t, p) == {j \in 1..Len(m) : m[j][1] # <<>> /\ OccursAt(m[j][1], t, p)}
Longest(m, ks) == CHOOSE j \in ks : \A x \in ks : Len(m[x][1]) <= Len(m[j][1])

RECURSIVE MapFrom(_, _, _)
MapFrom(m, t, p) ==
  IF p >= Len(t) THEN <<>>
  ELSE LET ks == KeysAt(m, t, p)
       IN IF ks = {} THEN <<Copy(t[p + 1])>> \o MapFrom(m, t, p + 1)
          ELSE LET j == Longest(m, ks)
               IN <<Repl(m[j][1], m[j][2])>> \o MapFrom(m, t, p + Len(m[j][1]))

(* --- regular expressions: leftmost match, alternatives in order of preference ---- *)
\* state of a match: position p and captured groups g (<<start, end>> or <<>>)
InSet(n, ch) == (\E j \in 1..Len(n.cs) : n.cs[j][1] <= ch /\ ch <= n.cs[j][2]) # n.neg

RECURSIVE Mat(_, _, _), MatSeq(_, _, _, _), MatRep(_, _, _, _, _, _), MatAll(_, _, _)
FlatMap(f(_), xs) == FoldLeft(LAMBDA a, x : a \o f(x), <<>>, xs)
MatAll(n, t, sts) == FlatMap(LAMBDA s : Mat(n, t, s), sts)
MatSeq(xs, j, t, sts) == IF j > Len(xs) THEN sts ELSE MatSeq(xs, j + 1, t, MatAll(xs[j], t, sts))
MatRep(x, min, max, lazy, t, s) ==
  IF max = 0 THEN <<s>>
  ELSE LET again == FlatMap(LAMBDA y : IF y.p > s.p \/ min > 0
                                       THEN MatRep(x, IF min > 0 THEN min - 1 ELSE 0, IF max > 0 THEN max - 1 ELSE max, lazy, t, y)
                                       ELSE <<>>, Mat(x, t, s))
       IN IF min > 0 THEN again ELSE IF lazy THEN <<s>> \o again ELSE again \o <<s>>
Mat(n, t, s) ==
  LET one(ok(_)) == IF s.p < Len(t) /\ ok(t[s.p + 1]) THEN <<[s EXCEPT !.p = @ + 1]>> ELSE <<>>
  IN CASE n.k = "chr" -> one(LAMBDA ch : ch = n.c)
       [] n.k = "any" -> one(LAMBDA ch : ch # 10)
       [] n.k = "set" -> one(LAMBDA ch : InSet(n, ch))
       [] n.k = "cat" -> MatSeq(n.xs, 1, t, <<s>>)
       [] n.k = "alt" -> FlatMap(LAMBDA x : Mat(x, t, s), n.xs)
       [] n.k = "rep" -> MatRep(n.x, n.min, n.max, n.lazy, t, s)
       [] n.k = "grp" -> LET r == Mat(n.x, t, s) IN [j \in 1..Len(r) |-> [r[j] EXCEPT !.g[n.n] = <<s.p, r[j].p>>]]
       [] n.k = "bol" -> IF s.p = 0 THEN <<s>> ELSE <<>>
       [] n.k = "eol" -> IF s.p = Len(t) THEN <<s>> ELSE <<>>
       [] n.k = "eps" -> <<s>>

\* leftmost match that starts at p or later, as <<start, state>>; <<>> if there is none
RECURSIVE Search(_, _, _, _)
Search(n, ng, t, p) ==
  IF p > Len(t) THEN <<>>
  ELSE LET r == Mat(n, t, [p |-> p, g |-> [j \in 1..ng |-> <<>>]])
       IN IF r # <<>> THEN <<p, r[1]>> ELSE Search(n, ng, t, p + 1)

\* template parts [g, s]: g < 0 is the literal s, 0 the whole match, otherwise a group
Expand(tpl, t, from, st) ==
  Concat([j \in 1..Len(tpl) |->
    IF tpl[j].g < 0 THEN tpl[j].s
    ELSE IF tpl[j].g = 0 THEN SubSeq(t, from + 1, st.p)
    ELSE IF tpl[j].g > Len(st.g) \/ st.g[tpl[j].g] = <<>> THEN <<>>
    ELSE SubSeq(t, st.g[tpl[j].g][1] + 1, st.g[tpl[j].g][2])])

\* The replacement as it is configured, raw: $$ is a dollar sign, $name (as many letters,
\* digits and _ as follow) and ${name} refer to a group by number or by name; a reference
\* to a group that is not there stands for nothing, any other dollar sign for itself.
WordChar(ch) == ch \in 48..57 \/ ch \in 65..90 \/ ch \in 97..122 \/ ch = 95
DecOf(s) == FoldLeft(LAMBDA a, ch : IF a > 999 THEN a ELSE 10 * a + ch - 48, 0, s)
GroupOf(s, names) ==
  LET d == IF Len(s) > 1 /\ s[1] = 43 THEN Tail(s) ELSE s
      js == {j \in 1..Len(names) : names[j] = s}
  IN IF d # <<>> /\ \A j \in 1..Len(d) : d[j] \in 48..57 THEN DecOf(d)
     ELSE IF s # <<>> /\ js # {} THEN SetMin(js) ELSE 1000
RECURSIVE TplFrom(_, _, _)
TplFrom(s, p, names) ==
  LET lit(q) == <<[g |-> -1, s |-> <<s[p]>>]>> \o TplFrom(s, q, names)
      ref(a, b, q) == <<[g |-> GroupOf(SubSeq(s, a, b), names), s |-> <<>>]>> \o TplFrom(s, q, names)
  IN IF p > Len(s) THEN <<>>
     ELSE IF s[p] # 36 \/ p = Len(s) THEN lit(p + 1)
     ELSE IF s[p + 1] = 36 THEN lit(p + 2)
     ELSE IF s[p + 1] = 123
          THEN LET ends == {q \in (p + 2)..Len(s) : s[q] = 125}
               IN IF ends = {} THEN lit(p + 1) ELSE ref(p + 2, SetMin(ends) - 1, SetMin(ends) + 1)
     ELSE LET stop == SetMin({q \in (p + 1)..(Len(s) + 1) : q > Len(s) \/ ~WordChar(s[q])})
          IN IF stop = p + 1 THEN lit(p + 1) ELSE ref(p + 1, stop - 1, stop)
Tpl(f) == IF "raw" \in DOMAIN f THEN TplFrom(f.raw, 1, f.names) ELSE f.tpl

Copies(t, a, b) == [j \in 1..(b - a) |-> Copy(t[a + j])]

\* last: end of the previous match (-1: none); an empty match may not start there
RECURSIVE RexFrom(_, _, _, _, _, _)
RexFrom(f, t, p, from, last, acc) ==
  LET m == Search(f.re, f.ng, t, from)
  IN IF m = <<>> THEN acc \o Copies(t, p, Len(t))
     ELSE IF m[2].p = m[1] /\ m[1] = last THEN RexFrom(f, t, p, from + 1, last, acc)
     ELSE RexFrom(f, t, m[2].p, m[2].p, m[2].p,
                  acc \o Copies(t, p, m[1]) \o <<Repl(SubSeq(t, m[1] + 1, m[2].p), Expand(Tpl(f), t, m[1], m[2]))>>)

(* --- iteration marks -------------------------------------------------------------- *)
KanjiMark == 12293
HiraMark == 12445   HiraVoiced == 12446
KataMark == 12541   KataVoiced == 12542
KanaMarks == {HiraMark, HiraVoiced, KataMark, KataVoiced}

\* unvoiced hiragana that have a voiced form, which is the next code point
HiraPairs == {12363, 12365, 12367, 12369, 12371, 12373, 12375, 12377, 12379, 12381, 12383, 12385,
              12388, 12390, 12392, 12399, 12402, 12405, 12408, 12411}
KataPairs == {x + 96 : x \in HiraPairs}
Voice(pairs, ch)   == IF ch \in pairs THEN ch + 1 ELSE ch
Unvoice(pairs, ch) == IF ch - 1 \in pairs THEN ch - 1 ELSE ch

IsMark(f, ch) == (f.kanji /\ ch = KanjiMark) \/ (f.kana /\ ch \in KanaMarks)
\* first position (0-based) of the run of marks around position p, and the one after it
RECURSIVE RunStart(_, _, _), RunEnd(_, _, _)
RunStart(f, t, p) == IF p > 0 /\ IsMark(f, t[p]) THEN RunStart(f, t, p - 1) ELSE p
RunEnd(f, t, p) == IF p < Len(t) /\ IsMark(f, t[p + 1]) THEN RunEnd(f, t, p + 1) ELSE p

IterChar(f, t, p) ==
  LET ch == t[p + 1]
      a == RunStart(f, t, p)
      n == RunEnd(f, t, p) - a
      src == t[p + 1 - SetMin({n, a})]
  IN CASE ~IsMark(f, ch) -> ch
       [] ch = KanjiMark -> src
       [] ch = HiraMark -> Unvoice(HiraPairs, src)
       [] ch = HiraVoiced -> Voice(HiraPairs, src)
       [] ch = KataMark -> Unvoice(KataPairs, src)
       [] ch = KataVoiced -> Voice(KataPairs, src)

IterPieces(f, t) == [j \in 1..Len(t) |-> LET o == IterChar(f, t, j - 1)
                                         IN IF o = t[j] THEN Copy(o) ELSE Repl(<<t[j]>>, <<o>>)]

(* --- Unicode normalization ------------------------------------------------------ *)
\* D: character data, a sequence of [c, cc: combining class, d: canonical, k: compatibility decomposition]
\* (characters without a record decompose to themselves and have class 0); P: <<a, b, composed>>
DataOf(D, ch) == LET js == {j \in 1..Len(D) : D[j].c = ch}
                 IN IF js = {} THEN [c |-> ch, cc |-> 0, d |-> <<ch>>, k |-> <<ch>>] ELSE D[CHOOSE j \in js : TRUE]
Class(D, ch) == DataOf(D, ch).cc
Decomposed(form, D, t) ==
  FoldLeft(LAMBDA a, ch : a \o (IF form \in {"nfkc", "nfkd"} THEN DataOf(D, ch).k ELSE DataOf(D, ch).d), <<>>, t)

\* canonical order: marks sink below marks of a higher class, never across a starter
RECURSIVE Sink(_, _, _)
Sink(D, a, ch) == IF a # <<>> /\ Class(D, a[Len(a)]) > Class(D, ch)
                  THEN Append(Sink(D, SubSeq(a, 1, Len(a) - 1), ch), a[Len(a)]) ELSE Append(a, ch)
Ordered(D, t) == FoldLeft(LAMBDA a, ch : IF Class(D, ch) = 0 THEN Append(a, ch) ELSE Sink(D, a, ch), <<>>, t)

Composite(P, a, b) == {P[j][3] : j \in {j \in 1..Len(P) : P[j][1] = a /\ P[j][2] = b}}
\* s: index of the last starter in o (0: none)
ComposeStep(D, P, a, ch) ==
  LET free == a.s > 0 /\ (a.s = Len(a.o) \/ Class(D, a.o[Len(a.o)]) < Class(D, ch))
      cs == IF free THEN Composite(P, a.o[a.s], ch) ELSE {}
  IN IF cs # {} THEN [a EXCEPT !.o[a.s] = CHOOSE x \in cs : TRUE]
     ELSE [o |-> Append(a.o, ch), s |-> IF Class(D, ch) = 0 THEN Len(a.o) + 1 ELSE a.s]
Composed(D, P, t) == FoldLeft(LAMBDA a, ch : ComposeStep(D, P, a, ch), [o |-> <<>>, s |-> 0], t).o

Norm(form, D, P, t) ==
  LET o == Ordered(D, Decomposed(form, D, t))
  IN IF form \in {"nfc", "nfkc"} THEN Composed(D, P, o) ELSE o

\* pieces that are normalized one by one: clusters (given by their lengths), joined while they interact
NormPieces(form, D, P, t, clusters) ==
  LET piece(x) == LET y == Norm(form, D, P, x) IN IF x = y THEN [i |-> x, o |-> y, rep |-> FALSE] ELSE Repl(x, y)
      step(a, n) ==
        LET g == SubSeq(t, a.p + 1, a.p + n)
        IN IF a.cur = <<>> THEN [a EXCEPT !.p = @ + n, !.cur = g]
           ELSE IF Norm(form, D, P, a.cur \o g) = Norm(form, D, P, a.cur) \o Norm(form, D, P, g)
           THEN [p |-> a.p + n, cur |-> g, ps |-> Append(a.ps, piece(a.cur))]
           ELSE [a EXCEPT !.p = @ + n, !.cur = @ \o g]
      r == FoldLeft(LAMBDA a, n : step(a, n), [p |-> 0, cur |-> <<>>, ps |-> <<>>], clusters)
  IN IF r.cur = <<>> THEN r.ps ELSE Append(r.ps, piece(r.cur))

(* --- any filter; u: Unicode data [D, P] and the text's clusters --------------------- *)
Pieces(f, t, D, P, clusters) ==
  CASE f.k = "map"  -> MapFrom(f.m, t, 0)
    [] f.k = "rex"  -> RexFrom(f, t, 0, 0, -1, <<>>)
    [] f.k = "iter" -> IterPieces(f, t)
    [] f.k = "norm" -> NormPieces(f.form, D, P, t, clusters)

(* --- offsets ----------------------------------------------------------------------- *)
\* byte extents of the pieces: [a, b] in the input, [x, y] in the output
Extents(ps) ==
  FoldLeft(LAMBDA e, p :
      LET l == IF e = <<>> THEN [b |-> 0, y |-> 0] ELSE e[Len(e)]
      IN Append(e, [a |-> l.b, b |-> l.b + BLen(p.i), x |-> l.y, y |-> l.y + BLen(p.o), rep |-> p.rep]), <<>>, ps)

\* the input offsets that output offset q may stand for
Origins(ext, q) ==
  IF ext = <<>> THEN {q}
  ELSE UNION {LET e == ext[j]
              IN IF ~e.rep THEN (IF e.x <= q /\ q <= e.y THEN {e.a + q - e.x} ELSE {})
                 ELSE (IF q = e.x THEN {e.a} ELSE {}) \cup (IF q = e.y THEN {e.b} ELSE {})
                      \cup (IF e.x < q /\ q < e.y THEN e.a..e.b ELSE {})
              : j \in 1..Len(ext)}

RECURSIVE Through(_, _)
\* exts: extents of the filters in order; S: offsets of the last text
Through(exts, S) ==
  IF exts = <<>> THEN S
  ELSE Through(SubSeq(exts, 1, Len(exts) - 1), UNION {Origins(exts[Len(exts)], q) : q \in S})

\* the character boundaries around offset q of text t
Snaps(t, q) ==
  LET bs == {BOffs(t)[j] : j \in 1..(Len(t) + 1)}
  IN {SetMax({b \in bs : b <= q}), SetMin({b \in bs : b >= q} \cup {SetMax(bs)})}
==================================================================================
