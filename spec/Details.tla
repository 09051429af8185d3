--------------------------------- MODULE Details ---------------------------------
(* The details of tokens as a caller handles them: read, replaced, taken back, copied. *)
EXTENDS Integers, Sequences
VARIABLES toks,   \* what the caller holds: [row: the details of the dictionary, held: <<>> or <<details>>]
          ans     \* the answer of the last read, <<>> before
dvars == <<toks, ans>>
DetInit == toks = <<>> /\ ans = <<>>
Fresh(r) == [row |-> r, held |-> <<>>]
Tokenize(rows) == toks' = toks \o [i \in 1..Len(rows) |-> Fresh(rows[i])] /\ ans' = <<>>
Answer(k) == IF k.held = <<>> THEN k.row ELSE k.held[1]
Read(i, d) ==
  /\ i \in 1..Len(toks) /\ d = Answer(toks[i])
  /\ ans' = <<d>>
  /\ toks' = [toks EXCEPT ![i].held = <<d>>]             \* looked up once
Put(i, d) == i \in 1..Len(toks) /\ toks' = [toks EXCEPT ![i].held = <<d>>] /\ ans' = <<>>
TakeBack(i) == i \in 1..Len(toks) /\ toks' = [toks EXCEPT ![i].held = <<>>] /\ ans' = <<>>
CopyTok(i) == i \in 1..Len(toks) /\ toks' = Append(toks, toks[i]) /\ ans' = <<>>
==================================================================================
