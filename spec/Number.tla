--------------------------------- MODULE Number ---------------------------------
(* Kanji numerals.  A numeral is a maximal run of numeral characters.  It is well   *)
(* formed if it is a row of digits, or sections before strictly descending units    *)
(* 垓 京 兆 億 万 and a last section; numbers are sequences of decimal digits, since  *)
(* they exceed any machine integer.                                                 *)
EXTENDS Text

\* code points: full width digits, kanji digits (0..9), formal digits
Han == <<12295, 19968, 20108, 19977, 22235, 20116, 20845, 19971, 20843, 20061>>
Formal == << <<38646, 0>>, <<22769, 1>>, <<24336, 2>>, <<21442, 3>> >>   \* 零 壱 弐 参
\* digit value, or -1
Digit(ch) ==
  IF ch \in 48..57 THEN ch - 48
  ELSE IF ch \in 65296..65305 THEN ch - 65296
  ELSE LET h == {j \in 1..10 : Han[j] = ch} f == {j \in 1..4 : Formal[j][1] = ch}
       IN IF h # {} THEN (CHOOSE j \in h : TRUE) - 1
          ELSE IF f # {} THEN Formal[CHOOSE j \in f : TRUE][2] ELSE -1
\* zeros of a small unit, or 0
Small(ch) == CASE ch \in {21313, 25342} -> 1 [] ch = 30334 -> 2 [] ch = 21315 -> 3 [] OTHER -> 0
\* zeros of a large unit, or 0
Large(ch) == CASE ch = 19975 -> 4 [] ch = 20740 -> 8 [] ch = 20806 -> 12 [] ch = 20140 -> 16 [] ch = 22419 -> 20 [] OTHER -> 0

IsNumeral(ch) == Digit(ch) >= 0 \/ Small(ch) > 0 \/ Large(ch) > 0
AllDigits(s) == \A j \in 1..Len(s) : Digit(s[j]) >= 0
Zeros(n) == [j \in 1..n |-> 0]
Pad4(ds) == Zeros(4 - Len(ds)) \o ds
Bad == <<-1>>

\* a section below 10000 with small units, as four digits: terms [digit]unit with descending units,
\* then digits that fit behind the last unit
RECURSIVE Terms(_, _, _)
\* limit: zeros of the unit before (4 at the start); acc: four digits so far
Terms(s, limit, acc) ==
  IF s = <<>> THEN acc
  ELSE IF AllDigits(s) THEN
         IF Len(s) <= limit /\ limit < 4 THEN [j \in 1..4 |-> IF j > 4 - Len(s) THEN Digit(s[j - 4 + Len(s)]) ELSE acc[j]] ELSE Bad
  ELSE LET one == Small(s[1]) > 0
           d == IF one THEN 1 ELSE Digit(s[1])
           u == IF one THEN Small(s[1]) ELSE Small(s[2])   \* not all digits: a second character exists
           rest == IF one THEN Tail(s) ELSE Tail(Tail(s))
       IN IF d < 1 \/ u = 0 \/ u >= limit THEN Bad ELSE Terms(rest, u, [acc EXCEPT ![4 - u] = d])

Section(s, first, last) ==
  IF s = <<>> THEN (IF last THEN Zeros(4) ELSE <<0, 0, 0, 1>>)
  ELSE IF AllDigits(s) THEN
         IF Len(s) > 4 \/ (~last /\ (\A j \in 1..Len(s) : Digit(s[j]) = 0)) \/ (first /\ Digit(s[1]) = 0) THEN Bad
         ELSE Pad4([j \in 1..Len(s) |-> Digit(s[j])])
  ELSE IF \E j \in 1..Len(s) : Large(s[j]) > 0 THEN Bad
  ELSE Terms(s, 4, Zeros(4))

\* sections from the left; below: zeros of the last large unit (24 at the start)
RECURSIVE Sections(_, _, _, _)
Sections(s, below, first, acc) ==
  LET us == {j \in 1..Len(s) : Large(s[j]) > 0}
  IN IF us = {} THEN LET v == Section(s, first, TRUE)
                     IN IF v = Bad THEN Bad ELSE acc \o Zeros(below - 4) \o v
     ELSE LET j == SetMin(us)
              u == Large(s[j])
              v == Section(SubSeq(s, 1, j - 1), first, FALSE)
          IN IF v = Bad \/ u >= below THEN Bad
             ELSE Sections(SubSeq(s, j + 1, Len(s)), u, FALSE,
                           (IF first THEN v ELSE acc \o Zeros(below - u - 4) \o v))

RECURSIVE Strip(_)
Strip(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Strip(Tail(ds)) ELSE ds

\* the digits the numeral denotes, or Bad if it is not well formed
Value(s) ==
  IF AllDigits(s) THEN [j \in 1..Len(s) |-> Digit(s[j])]
  ELSE IF ~\E j \in 1..Len(s) : Large(s[j]) > 0
  THEN LET v == Terms(s, 4, Zeros(4)) IN IF v = Bad THEN Bad ELSE Strip(v)
  ELSE LET v == Sections(s, 24, TRUE, <<>>) IN IF v = Bad THEN Bad ELSE Strip(v)
Ascii(ds) == [j \in 1..Len(ds) |-> 48 + ds[j]]

\* maximal runs of numeral and of other characters, in order: <<numeral?, run>>
Runs(t) ==
  FoldLeft(LAMBDA a, ch :
     IF a # <<>> /\ a[Len(a)].num = IsNumeral(ch) THEN [a EXCEPT ![Len(a)].s = Append(@, ch)]
     ELSE Append(a, [num |-> IsNumeral(ch), s |-> <<ch>>]), <<>>, t)

Rewrite(t) == LET rs == Runs(t)
              IN Concat([j \in 1..Len(rs) |-> IF rs[j].num /\ Value(rs[j].s) # Bad THEN Ascii(Value(rs[j].s)) ELSE rs[j].s])
Others(t) == SelectSeq(t, LAMBDA ch : ~IsNumeral(ch))
WellFormed(t) == LET rs == Runs(t) IN \A j \in 1..Len(rs) : rs[j].num => Value(rs[j].s) # Bad

\* o is a permitted rewriting of t: a run that is no number may become anything, but other characters stay
NumberOk(t, o) == IF WellFormed(t) THEN o = Rewrite(t) ELSE Others(o) = Others(t)
=================================================================================
