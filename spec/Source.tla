--------------------------------- MODULE Source ---------------------------------
(* What dictionary sources mean, line by line: word lists (CSV records), the        *)
(* connection matrix, character definitions, unknown-word definitions and user      *)
(* dictionaries.  All text is sequences of code points, numbers included.           *)
EXTENDS Text

NoNum == 99999999
White == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}

TrimL(s) == LET k == {i \in 1..Len(s) : s[i] \notin White} IN IF k = {} THEN <<>> ELSE SubSeq(s, SetMin(k), Len(s))
TrimR(s) == LET k == {i \in 1..Len(s) : s[i] \notin White} IN IF k = {} THEN <<>> ELSE SubSeq(s, 1, SetMax(k))
Trim(s) == TrimR(TrimL(s))

\* the number a text of ASCII digits denotes (six digits at most, else NoNum)
Digits(s) ==
  IF s = <<>> \/ \E i \in 1..Len(s) : s[i] \notin 48..57 THEN NoNum
  ELSE LET k == {i \in 1..Len(s) : s[i] # 48}
           z == IF k = {} THEN <<>> ELSE SubSeq(s, SetMin(k), Len(s))
       IN IF Len(z) > 6 THEN NoNum ELSE FoldLeft(LAMBDA a, d : 10 * a + (d - 48), 0, z)
Signed(s) ==
  IF s = <<>> THEN NoNum
  ELSE IF s[1] = 45 THEN (LET v == Digits(Tail(s)) IN IF v = NoNum THEN NoNum ELSE 0 - v)
  ELSE IF s[1] = 43 THEN Digits(Tail(s))
  ELSE Digits(s)
Within(v, lo, hi) == IF v # NoNum /\ lo <= v /\ v <= hi THEN v ELSE NoNum
Cost(s) == Within(Signed(s), -32768, 32767)                       \* a 16-bit cost
Id(s) == IF s # <<>> /\ s[1] = 45 THEN NoNum ELSE Within(Signed(s), 0, 65535)
\* in the matrix, numbers are signed until they are used as ids
MatId(s) == Within(Signed(s), 0, 65535)

Field(row, i) == IF i <= Len(row) THEN row[i] ELSE <<>>

----------------------------------------------------------------------------------
(* System word lists *)
Ipa(kind) == kind \in {"ipadic", "ipadic-neologd"}
NormChar(c) == CASE c = 8213 -> 8212 [] c = 65374 -> 12316 [] OTHER -> c
Norm(kind, s) == IF Ipa(kind) THEN [i \in 1..Len(s) |-> NormChar(s[i])] ELSE s

\* a record as an entry, or <<>> if its numbers cannot be read
Entry1(kind, row) ==
  LET l == Id(Trim(Field(row, 2))) r == Id(Trim(Field(row, 3))) c == Cost(Trim(Field(row, 4)))
  IN IF NoNum \in {l, r, c} THEN <<>>
     ELSE <<[s |-> Norm(kind, row[1]), l |-> l, r |-> r, c |-> c,
             d |-> [i \in 1..(Len(row) - 4) |-> Norm(kind, row[4 + i])]]>>

WordsInit == [es |-> <<>>, width |-> <<>>, bad |-> FALSE]
\* one record of file f; width: field count of the records seen in each file
WordsStep(kind, acc, f, row) ==
  LET e == Entry1(kind, row)
      seen == {i \in 1..Len(acc.width) : acc.width[i][1] = f}
      uneven == seen # {} /\ acc.width[CHOOSE i \in seen : TRUE][2] # Len(row)
  IN [es |-> acc.es \o e,
      width |-> IF seen = {} THEN Append(acc.width, <<f, Len(row)>>) ELSE acc.width,
      bad |-> acc.bad \/ (kind # "cc-cedict" /\ (e = <<>> \/ uneven))]

Homographs(es) == IF es = <<>> THEN 0 ELSE SetMax({Cardinality({j \in 1..Len(es) : es[j].s = es[i].s}) : i \in 1..Len(es)})
NulIn(es) == \E i \in 1..Len(es) : \E j \in 1..Len(es[i].s) : es[i].s[j] = 0
\* "ok", "err" or, beyond what an index can hold, "any"
WordsVerdict(acc) == IF acc.bad \/ acc.es = <<>> \/ NulIn(acc.es) THEN "err" ELSE IF Homographs(acc.es) >= 32 THEN "any" ELSE "ok"

\* entries whose surface starts the text, as a sequence in source order
Found(es, t) == SelectSeq(es, LAMBDA e : OccursAt(e.s, t, 0))
Exactly(es, t) == SelectSeq(es, LAMBDA e : e.s = t)

SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A x \in {a[i] : i \in 1..Len(a)} \cup {b[i] : i \in 1..Len(b)} :
        Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})

----------------------------------------------------------------------------------
(* User dictionaries *)
Detailed(kind) == CASE Ipa(kind) -> 13 [] kind = "unidic" -> 21 [] OTHER -> 12
S1 == <<42>>
Stars(n) == [i \in 1..n |-> S1]
SimpleRow(kind, r) ==
  CASE Ipa(kind)         -> <<r[2]>> \o Stars(5) \o <<r[1], r[3]>> \o Stars(1)
    [] kind = "unidic"    -> <<r[2]>> \o Stars(5) \o <<r[3]>> \o Stars(10)
    [] kind = "ko-dic"    -> <<r[2]>> \o Stars(2) \o <<r[3]>> \o Stars(4)
    [] kind = "cc-cedict" -> <<r[2]>> \o Stars(3) \o <<r[3]>> \o Stars(3)
UserEntry(kind, row) ==
  IF Len(row) = 3 THEN <<[s |-> row[1], l |-> 0, r |-> 0, c |-> -10000, d |-> SimpleRow(kind, row)]>>
  ELSE LET l == Id(Field(row, 2)) r == Id(Field(row, 3)) c == Cost(Field(row, 4))
       IN IF Len(row) < Detailed(kind) \/ NoNum \in {l, r, c} THEN <<>>
          ELSE <<[s |-> row[1], l |-> l, r |-> r, c |-> c, d |-> SubSeq(row, 5, Len(row))]>>
UserInit == WordsInit
\* rows of different lengths in one file are accepted by the IPADIC kinds only
UserStep(kind, acc, row) ==
  LET e == UserEntry(kind, row)
      uneven == acc.width # <<>> /\ acc.width[1][2] # Len(row)
  IN [es |-> acc.es \o e, width |-> IF acc.width = <<>> THEN <<<<1, Len(row)>>>> ELSE acc.width,
      bad |-> acc.bad \/ e = <<>> \/ (uneven /\ ~Ipa(kind))]
UserVerdict(acc) == IF acc.bad \/ NulIn(acc.es) THEN "err" ELSE IF Homographs(acc.es) >= 32 THEN "any" ELSE "ok"

----------------------------------------------------------------------------------
(* The connection matrix.  A line is a sequence of fields. *)
MatInit == [nf |-> -1, nb |-> -1, cells |-> <<>>, bad |-> FALSE]
MatStep(acc, line) ==
  IF acc.nf = -1
  THEN LET f == MatId(Field(line, 1)) b == MatId(Field(line, 2))
       IN [acc EXCEPT !.nf = IF f = NoNum THEN 0 ELSE f, !.nb = IF b = NoNum THEN 0 ELSE b, !.bad = f = NoNum \/ b = NoNum]
  ELSE LET f == MatId(Field(line, 1)) b == MatId(Field(line, 2)) c == Cost(Field(line, 3))
           ok == NoNum \notin {f, b, c} /\ f < acc.nf /\ b < acc.nb
       IN IF ok THEN [acc EXCEPT !.cells = Append(@, <<f, b, c>>)] ELSE [acc EXCEPT !.bad = TRUE]
MatVerdict(acc) == IF acc.bad \/ acc.nf = -1 THEN "err" ELSE "ok"
\* a pair listed more than once costs one of its values; which one is not specified
CellCosts(acc, f, b) ==
  LET k == {i \in 1..Len(acc.cells) : acc.cells[i][1] = f /\ acc.cells[i][2] = b}
  IN IF k = {} THEN {32767} ELSE {acc.cells[i][3] : i \in k}
CellCost(acc, f, b) ==
  LET k == {i \in 1..Len(acc.cells) : acc.cells[i][1] = f /\ acc.cells[i][2] = b}
  IN IF k = {} THEN 32767 ELSE acc.cells[CHOOSE i \in k : TRUE][3]

----------------------------------------------------------------------------------
(* Character definitions and unknown words.  A line is its raw text. *)
Before(line, ch) == LET k == {i \in 1..Len(line) : line[i] = ch} IN IF k = {} THEN line ELSE SubSeq(line, 1, SetMin(k) - 1)
Words(line) ==
  LET f == FoldLeft(LAMBDA a, ch : IF ch \in White THEN [o |-> IF a.w = <<>> THEN a.o ELSE Append(a.o, a.w), w |-> <<>>]
                                   ELSE [a EXCEPT !.w = Append(@, ch)], [o |-> <<>>, w |-> <<>>], line)
  IN IF f.w = <<>> THEN f.o ELSE Append(f.o, f.w)
SplitAt(line, sep) ==
  LET f == FoldLeft(LAMBDA a, ch : IF ch = sep THEN [o |-> Append(a.o, a.w), w |-> <<>>] ELSE [a EXCEPT !.w = Append(@, ch)],
                    [o |-> <<>>, w |-> <<>>], line)
  IN Append(f.o, f.w)
HexDigit(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 65..70 THEN ch - 55 ELSE IF ch \in 97..102 THEN ch - 87 ELSE -1
\* 0x and hexadecimal digits of a 16-bit code point
Hex(s) ==
  IF Len(s) < 3 \/ s[1] # 48 \/ s[2] # 120 \/ (\E i \in 3..Len(s) : HexDigit(s[i]) < 0) \/ Len(s) > 10 THEN NoNum
  ELSE LET h == SubSeq(s, 3, Len(s))
           k == {i \in 1..Len(h) : h[i] # 48}
           z == IF k = {} THEN <<>> ELSE SubSeq(h, SetMin(k), Len(h))
       IN IF Len(z) > 4 THEN NoNum ELSE FoldLeft(LAMBDA a, d : 16 * a + HexDigit(d), 0, z)
\* "lo..hi" or "lo"; position of ".."
Bounds(s) ==
  LET k == {i \in 1..(Len(s) - 1) : s[i] = 46 /\ s[i + 1] = 46}
  IN IF k = {} THEN <<Hex(s), Hex(s)>>
     ELSE LET i == SetMin(k) IN <<Hex(SubSeq(s, 1, i - 1)), Hex(SubSeq(s, i + 2, Len(s)))>>

\* ids: category names by number, in order of first mention; defs: <<number, inv, grp, len>>
DefsInit == [ids |-> <<>>, defs |-> <<>>, rng |-> <<>>, unk |-> <<>>, bad |-> FALSE]
Mention(ids, n) == IF \E i \in 1..Len(ids) : ids[i] = n THEN ids ELSE Append(ids, n)
IdOf(ids, n) == CHOOSE i \in 1..Len(ids) : ids[i] = n
CharStep(acc, line) ==
  LET f == Words(Before(line, 35))
  IN IF f = <<>> THEN acc
     ELSE IF Len(f[1]) >= 2 /\ f[1][1] = 48 /\ f[1][2] = 120
     THEN LET b == Bounds(f[1])
              ids == FoldLeft(Mention, acc.ids, Tail(f))
          IN IF NoNum \in {b[1], b[2]} THEN [acc EXCEPT !.bad = TRUE]
             ELSE [acc EXCEPT !.ids = ids,
                              !.rng = Append(@, [lo |-> b[1], hi |-> b[2], cs |-> [i \in 1..(Len(f) - 1) |-> IdOf(ids, f[i + 1])]])]
     ELSE IF Len(f) # 4 THEN [acc EXCEPT !.bad = TRUE]
     ELSE LET ids == Mention(acc.ids, f[1])
              v == [i \in 1..3 |-> IF f[i + 1][1] = 45 THEN NoNum ELSE Signed(f[i + 1])]
          IN IF \E i \in 1..3 : v[i] = NoNum \/ v[i] < 0 THEN [acc EXCEPT !.bad = TRUE]
             ELSE [acc EXCEPT !.ids = ids, !.defs = Append(@, [k |-> IdOf(ids, f[1]), inv |-> v[1] = 1, grp |-> v[2] = 1, len |-> v[3]])]
UnkFields(kind) == CASE Ipa(kind) -> 11 [] kind = "ko-dic" -> 12 [] OTHER -> 10
UnkStep(kind, acc, line) ==
  LET f == SplitAt(line, 44)
      l == Id(Field(f, 2)) r == Id(Field(f, 3)) c == Cost(Field(f, 4))
  IN IF Len(f) # UnkFields(kind) \/ NoNum \in {l, r, c} THEN [acc EXCEPT !.bad = TRUE]
     ELSE [acc EXCEPT !.unk = Append(@, [n |-> f[1], v |-> <<l, r, c>>])]
Undefined(acc) == \E i \in 1..Len(acc.ids) : ~\E j \in 1..Len(acc.defs) : acc.defs[j].k = i
DEFAULT == <<68, 69, 70, 65, 85, 76, 84>>
\* what no range covers needs DEFAULT
DefsVerdict(acc) == IF acc.bad \/ Undefined(acc) \/ ~\E i \in 1..Len(acc.ids) : acc.ids[i] = DEFAULT THEN "err" ELSE "ok"

\* category numbers of a character, in order of first mention, without repeats
Cats(acc, ch) ==
  LET add(a, k) == IF \E j \in 1..Len(a) : a[j] = k THEN a ELSE Append(a, k)
      cs == FoldLeft(LAMBDA a, r : IF r.lo <= ch /\ ch <= r.hi THEN FoldLeft(add, a, r.cs) ELSE a, <<>>, acc.rng)
  IN IF cs = <<>> THEN <<IdOf(acc.ids, DEFAULT)>> ELSE cs
\* everything about category number k
CatRecord(acc, k) ==
  LET d == acc.defs[CHOOSE j \in 1..Len(acc.defs) : acc.defs[j].k = k]
      us == SelectSeq(acc.unk, LAMBDA u : u.n = acc.ids[k])
  IN [n |-> acc.ids[k], inv |-> d.inv, grp |-> d.grp, len |-> d.len, u |-> [i \in 1..Len(us) |-> us[i].v]]
=================================================================================
