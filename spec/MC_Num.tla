--------------------------------- MODULE MC_Num ---------------------------------
(* Every text over a few numeral characters: the digits that Number gives for a     *)
(* numeral are those of the integer it denotes, computed independently.             *)
EXTENDS Number, Json, TLC, IOUtils

CONSTANT MaxLen, Chars

VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E ch \in Chars : t' = Append(t, ch)
Spec == Init /\ [][Next]_t

Pow10(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 10 ELSE IF n = 2 THEN 100 ELSE IF n = 3 THEN 1000 ELSE IF n = 4 THEN 10000 ELSE 100000000
Nat10(ds) == FoldLeft(LAMBDA a, d : 10 * a + d, 0, ds)

\* independent reading, from the right: [sum, section, pending digits as value, scale of pending digits, ok]
\* each character contributes: a digit its value times the scale, a unit 1 unless a digit precedes it
Read(s) ==
  FoldLeft(LAMBDA a, ch :
     IF Digit(ch) >= 0 THEN [a EXCEPT !.dig = 10 * @ + Digit(ch), !.has = TRUE]
     ELSE IF Small(ch) > 0 THEN [a EXCEPT !.sec = @ + (IF a.has THEN a.dig ELSE 1) * Pow10(Small(ch)), !.dig = 0, !.has = FALSE]
     ELSE [a EXCEPT !.sum = @ + (IF a.sec = 0 /\ ~a.has THEN 1 ELSE a.sec + a.dig) * Pow10(Large(ch)), !.sec = 0, !.dig = 0, !.has = FALSE],
   [sum |-> 0, sec |-> 0, dig |-> 0, has |-> FALSE], s)
Meaning(s) == LET r == Read(s) IN r.sum + r.sec + r.dig

ValueRight == (t # <<>> /\ Value(t) # Bad /\ Len(Value(t)) <= 9) => Nat10(Value(t)) = Meaning(t)
\* no leading zeros but for rows of digits
Canonical == (t # <<>> /\ Value(t) # Bad /\ ~AllDigits(t)) => Value(t)[1] # 0
\* every digit is a digit
Digits == (t # <<>> /\ Value(t) # Bad) => \A j \in 1..Len(Value(t)) : Value(t)[j] \in 0..9
\* the units do not matter when all are written out: rewriting the result again changes nothing
Stable == Rewrite(Rewrite(t)) = Rewrite(t) \/ ~WellFormed(t)

ASSUME "EXPORT" \notin DOMAIN IOEnv
       \/ ndJsonSerialize(IOEnv.EXPORT, <<[texts |-> SetToSeq(UNION {[1..n -> Chars] : n \in 1..MaxLen})]>>)
=================================================================================
