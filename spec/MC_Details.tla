------------------------------- MODULE MC_Details --------------------------------
(* Every history of a few operations on the tokens of one text; what a read must     *)
(* give is found from the history alone.                                             *)
EXTENDS Details, FiniteSets, SequencesExt, Json, IOUtils
CONSTANT MaxOps, MaxToks
Rows == <<<<"r1">>, <<"r2">>>>
Own == {<<>>, <<"x", "y">>}
Blank == [op |-> "read", i |-> 1, d |-> <<>>]
OpsOn(n) == {[op |-> "read", i |-> i, d |-> <<>>] : i \in 1..n} \cup {[op |-> "set", i |-> i, d |-> d] : i \in 1..n, d \in Own}
            \cup {[op |-> "unset", i |-> i, d |-> <<>>] : i \in 1..n} \cup {[op |-> "copy", i |-> i, d |-> <<>>] : i \in 1..n}
            \cup {[op |-> "again", i |-> 0, d |-> <<>>]}
VARIABLES hist, from
mvars == <<dvars, hist, from>>
MCInit == DetInit /\ hist = <<>> /\ from = <<>>
\* `from` says for every token held which row it came from
First == toks = <<>> /\ Tokenize(Rows) /\ from' = <<1, 2>> /\ UNCHANGED hist
Grow(n) == Len(toks) + n <= MaxToks
Do(o) ==
  /\ toks # <<>> /\ Len(hist) < MaxOps
  /\ CASE o.op = "read" -> Read(o.i, Answer(toks[o.i])) /\ UNCHANGED from
       [] o.op = "set" -> Put(o.i, o.d) /\ UNCHANGED from
       [] o.op = "unset" -> TakeBack(o.i) /\ UNCHANGED from
       [] o.op = "copy" -> Grow(1) /\ CopyTok(o.i) /\ from' = Append(from, from[o.i])
       [] o.op = "again" -> Grow(2) /\ Tokenize(Rows) /\ from' = from \o <<1, 2>>
  /\ hist' = Append(hist, o)
MCNext == First \/ (\E o \in OpsOn(Len(toks)) : Do(o)) \/ (Len(hist) = MaxOps /\ UNCHANGED mvars)
MCSpec == MCInit /\ [][MCNext]_mvars
\* what token i shows after the first n operations, from the history alone: its last own setting, or what it was copied from showed, or its row
RECURSIVE Shows(_, _), Held(_)
Held(n) == IF n = 0 THEN 2 ELSE Held(n - 1) + (CASE hist[n].op = "copy" -> 1 [] hist[n].op = "again" -> 2 [] OTHER -> 0)
Shows(i, n) ==
  IF n = 0 THEN Rows[from[i]]
  ELSE IF i > Held(n - 1) THEN (IF hist[n].op = "copy" THEN Shows(hist[n].i, n - 1) ELSE Rows[from[i]])
  ELSE IF hist[n].i = i /\ hist[n].op = "set" THEN hist[n].d
  ELSE IF hist[n].i = i /\ hist[n].op = "unset" THEN Rows[from[i]]
  ELSE Shows(i, n - 1)
ShownOk == toks # <<>> => (Len(toks) = Held(Len(hist)) /\ \A i \in 1..Len(toks) : Answer(toks[i]) = Shows(i, Len(hist)))
AnswerOk == ans # <<>> => LET n == Len(hist) IN hist[n].op = "read" /\ ans[1] = Shows(hist[n].i, n)
Export == "EXPORT" \notin DOMAIN IOEnv \/
  LET all == UNION {[1..n -> OpsOn(3)] : n \in 1..2} IN ndJsonSerialize(IOEnv.EXPORT, SetToSeq([hist : all]))
ASSUME Export
==================================================================================
