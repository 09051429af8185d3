--------------------------------- MODULE MC_Scale ---------------------------------
(* Why a text far too long for the model may be judged by its windows.  The machine *)
(* of Tokenizer runs over several related texts of a small world, one after the     *)
(* other, and keeps the least total cost of each; what must hold between them is    *)
(*   rep  : z (x z)^n, where the character z can only be one token in one way:      *)
(*          every segmentation is cut at every z, and the cost is that of the       *)
(*          windows z x z, each least on its own;                                   *)
(*   sent : u^n, where u ends with a delimiter: the cost is n times that of u;      *)
(*   run  : z c^n z, where no row contains c and every category of c groups: there  *)
(*          is no other segmentation than z, c^n, z, whatever n is.                 *)
EXTENDS MC_Tok

CONSTANTS XLen
Z == 167
C == 20189

VARIABLES best,   \* least cost of the sentences of the current text so far
          bests   \* least costs of the finished texts
svars == <<tvars, best, bests>>

\* the world with a pinned character Z and a run character C
Pinned(w, f, row, two) ==
  LET k == Len(w.cats)
  IN [w EXCEPT
        !.cats = @ \o <<[n |-> "PIN", inv |-> f, grp |-> FALSE], [n |-> "RUN", inv |-> f, grp |-> TRUE], [n |-> "RUN2", inv |-> TRUE, grp |-> TRUE]>>,
        !.rng = @ \o <<[lo |-> Z, hi |-> Z, cs |-> <<k + 1>>], [lo |-> C, hi |-> C, cs |-> IF two THEN <<k + 2, k + 3>> ELSE <<k + 2>>]>>,
        !.unk = @ \o <<[k |-> k + 1, l |-> 1, r |-> 0, c |-> -2], [k |-> k + 2, l |-> 0, r |-> 1, c |-> 3],
                       [k |-> k + 2, l |-> 1, r |-> 1, c |-> 2], [k |-> k + 3, l |-> 1, r |-> 0, c |-> 1]>>,
        !.sys = IF row /\ ~f THEN Append(@, Row(<<Z>>, 0, 1, 3, <<"z">>)) ELSE @]

Times(x, n) == Concat([i \in 1..n |-> x])
Rep(x, n) == <<Z>> \o Times(Append(x, Z), n)
RunText(n) == <<Z>> \o Times(<<C>>, n) \o <<Z>>

XTexts == UNION {[1..n -> {A, B, C}] : n \in 0..XLen}
UTexts == UNION {[1..n -> {A, B, D}] : n \in 0..(XLen - 1)}
Plans == {[kind |-> "rep", t |-> <<Rep(x, 0), Rep(x, 1), Rep(x, 2), Rep(x, 3)>>] : x \in XTexts} \cup
         {[kind |-> "sent", t |-> <<Append(x, D), Times(Append(x, D), 2), Times(Append(x, D), 3)>>] : x \in UTexts} \cup
         {[kind |-> "run", t |-> <<RunText(3), RunText(4), RunText(6)>>]}

\* c = [w, pen, kind, texts, j]
SWorld(x) == x.w
SText(x) == x.texts[x.j]
SPen(x) == x.pen

SInit == /\ \E w \in Family, fr \in {<<TRUE, FALSE>>, <<FALSE, FALSE>>, <<FALSE, TRUE>>}, two \in BOOLEAN, p \in Plans, pen \in Pens :
              c = [w |-> Pinned(w, fr[1], fr[2], two), pen |-> pen, kind |-> p.kind, texts |-> p.t, j |-> 1]
         /\ TokInit /\ best = 0 /\ bests = <<>>
SStep == (NextSentence \/ Expand) /\ UNCHANGED <<best, bests>>
SClose == CloseSentence /\ best' = best + BestCost /\ UNCHANGED bests
SEnd == /\ phase = "sentence" /\ to = Len(SText(c))
        /\ bests' = Append(bests, best) /\ best' = 0
        /\ IF c.j < Len(c.texts)
           THEN /\ c' = [c EXCEPT !.j = @ + 1]
                /\ phase' = "sentence" /\ from' = 0 /\ to' = 0 /\ pos' = 0 /\ lat' = <<>> /\ ue' = -1
           ELSE phase' = "done" /\ UNCHANGED <<c, from, to, pos, lat, ue>>
SNext == SStep \/ SClose \/ SEnd \/ (phase = "done" /\ UNCHANGED svars)
SSpec == SInit /\ [][SNext]_svars

\* every segmentation is cut around every Z, which is a token in one way only
PinHolds ==
  SentenceComplete =>
    \A q \in 1..Len(lat) : \A x \in lat[q] :
      x.k # "B" =>
        \A j \in (x.s + 1)..(q - 1) :
          Sent[j] = Z => /\ x.s = q - 2
                         /\ Cardinality(lat[q]) = 1
Lemma ==
  phase = "done" =>
    CASE c.kind = "rep"  -> \A n \in 1..(Len(bests) - 1) : bests[n + 1] = bests[2] + (n - 1) * (bests[2] - bests[1])
      [] c.kind = "sent" -> \A n \in 1..Len(bests) : bests[n] = n * bests[1]
      [] c.kind = "run"  -> c.pen = <<>> => \A n \in 1..Len(bests) : bests[n] = bests[1]
\* in a run every candidate word is the whole run
RunHolds == (SentenceComplete /\ c.kind = "run") =>
              \A q \in 1..Len(lat) : \A x \in lat[q] : x.k # "B" => <<x.s, q - 1>> \in {<<0, 1>>, <<1, to - 1>>, <<to - 1, to>>}
====================================================================================
