-------------------------------- MODULE Tokenizer --------------------------------
(* The tokenizer: cut the text into sentences, build each sentence's lattice        *)
(* position by position with the best cost of every candidate word, close the       *)
(* sentence.  Input `c` names the case; its world, text and penalty setting come    *)
(* from the instantiating module.                                                   *)
EXTENDS Dict, TLC

CONSTANTS WorldOf(_), TextOf(_), PenOf(_)

VARIABLES
  c,        \* the input
  phase,    \* "sentence" (between sentences), "expand", "done"
  from, to, \* the current sentence is characters from+1 .. to
  pos,      \* lattice position to expand next
  lat,      \* lat[q+1] : candidate words of the sentence that end at q, with best cost
  ue        \* end of the latest unknown-word candidate, -1 if none

tvars == <<c, phase, from, to, pos, lat, ue>>

Sent == SubSeq(TextOf(c), from + 1, to)
BOS == [s |-> 0, k |-> "B", i |-> 0, pc |-> 0]

TokInit == /\ phase = "sentence"
           /\ from = 0 /\ to = 0 /\ pos = 0 /\ lat = <<>> /\ ue = -1

\* take up the next sentence
NextSentence ==
  /\ phase = "sentence"
  /\ to < Len(TextOf(c))
  /\ LET e == SentEnd(TextOf(c), to)
     IN /\ from' = to
        /\ to' = e
        /\ lat' = [q \in 1..(e - to + 1) |-> IF q = 1 THEN {BOS} ELSE {}]
  /\ pos' = 0
  /\ ue' = -1
  /\ phase' = "expand"
  /\ UNCHANGED c

PenaltyOf(x, q) == Penalty(PenOf(c), SubSeq(Sent, x.s + 1, q))

\* the ways to arrive at position p: right context ids with the cost so far, penalties included
Arrive(p) ==
  LET w == WorldOf(c)
      t == Sent
      es == lat[p + 1]
      pens == TLCEval(IF PenOf(c) = <<>> THEN [s \in {x.s : x \in es} |-> 0]
              ELSE [s \in {x.s : x \in es} |-> Penalty(PenOf(c), SubSeq(t, s + 1, p))])
  IN TLCEval({[r |-> Entry(w, x.k, x.i).r, v |-> x.pc + pens[x.s]] : x \in es})

\* cheapest way to arrive and go on with a word of left id `left`
Cheapest(arr, left) == SetMin({a.v + Conn(WorldOf(c), a.r, left) : a \in arr})
Reach(p, left) == Cheapest(Arrive(p), left)

Cands(p) ==
  LET w == WorldOf(c)
      t == Sent
      known == UserEdges(w, t, p) \cup SysEdges(w, t, p)
      open == PenOf(c) # <<>> \/ ue <= p
  IN IF open
     THEN LET u == UnkEdges(w, t, p, known # {}, ue)
          IN [edges |-> known \cup u.edges, ue |-> u.ue]
     ELSE [edges |-> known, ue |-> ue]

\* (the singletons make TLC evaluate each of these once)
Added(cs, arr, reach) ==
  LET w == WorldOf(c)
  IN {[e |-> x.e,
       n |-> [s |-> pos, k |-> x.k, i |-> x.i,
              pc |-> reach[Entry(w, x.k, x.i).l] + Entry(w, x.k, x.i).c]] : x \in cs.edges}

\* add the candidate words that start at pos
Expand ==
  /\ phase = "expand"
  /\ pos < to - from
  /\ IF lat[pos + 1] = {}
     THEN UNCHANGED <<lat, ue>>
     ELSE \E cs \in {Cands(pos)} : \E arr \in {Arrive(pos)} :
          \E reach \in {TLCEval([l \in {Entry(WorldOf(c), x.k, x.i).l : x \in cs.edges} |-> Cheapest(arr, l)])} :
          \E new \in {Added(cs, arr, reach)} :
             /\ lat' = [q \in 1..Len(lat) |-> lat[q] \cup {y.n : y \in {y \in new : y.e + 1 = q}}]
             /\ ue' = cs.ue
  /\ pos' = pos + 1
  /\ UNCHANGED <<c, phase, from, to>>

SentenceComplete == phase = "expand" /\ pos = to - from

\* the least total cost of a path from start to end of the sentence
BestCost == Reach(to - from, 0)
Reachable == lat[to - from + 1] # {}

CloseSentence ==
  /\ SentenceComplete
  /\ phase' = "sentence"
  /\ UNCHANGED <<c, from, to, pos, lat, ue>>

EndOfText ==
  /\ phase = "sentence"
  /\ to = Len(TextOf(c))
  /\ phase' = "done"
  /\ UNCHANGED <<c, from, to, pos, lat, ue>>

TokNext == NextSentence \/ Expand \/ CloseSentence \/ EndOfText
==================================================================================
