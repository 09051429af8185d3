-------------------------------- MODULE Trace_Tok --------------------------------
(* Every recorded tokenization is checked against Tokenizer: the machine rebuilds   *)
(* the lattice, and each observed token must be one of its candidate words, the     *)
(* observed path one of least cost.  `fails` collects the properties that the       *)
(* observation contradicts.                                                         *)
EXTENDS Tokenizer, Json, TLC, IOUtils

CONSTANT PROP

Worlds == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/worlds.ndjson")
Cases  == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")

TWorld(x) == Worlds[Cases[x].w]
TText(x)  == Cases[x].t
TPen(x)   == Cases[x].pen

VARIABLES fails,   \* properties contradicted so far
          ti       \* tokens consumed so far

vars == <<tvars, fails, ti>>

Obs == Cases[c]
Toks == Obs.k

\* ---- T01: the tokens tile the text
Tiles(ks, t) ==
  LET n == Len(ks)
  IN /\ Concat([i \in 1..n |-> ks[i].t]) = t
     /\ \A i \in 1..n :
          /\ ks[i].t # <<>>
          /\ ks[i].bs = (IF i = 1 THEN 0 ELSE ks[i-1].be)
          /\ ks[i].be = ks[i].bs + BLen(ks[i].t)
          /\ ks[i].p = i - 1
          /\ ks[i].pl = 1

\* a category without unknown-word entries: there may be sentences without any segmentation, and those give no tokens
Gaps(w) == \E k \in 1..Len(w.cats) : ~\E u \in 1..Len(w.unk) : w.unk[u].k = k
\* the tokens of a text some of whose sentences are missing (the rest is checked sentence by sentence: Placed)
LooseTiles(ks) ==
  \A i \in 1..Len(ks) :
     /\ ks[i].t # <<>>
     /\ ks[i].bs >= (IF i = 1 THEN 0 ELSE ks[i-1].be)
     /\ ks[i].be = ks[i].bs + BLen(ks[i].t)
     /\ ks[i].p = i - 1
     /\ ks[i].pl = 1
\* tokens a..b are the current sentence, at its place in the text
Placed(a, b) ==
  /\ Concat([i \in 1..(b - a + 1) |-> Toks[a + i - 1].t]) = Sent
  /\ \A i \in a..b : Toks[i].bs = IF i = a THEN BLen(SubSeq(TextOf(c), 1, from)) ELSE Toks[i-1].be

\* ---- T05: details come from a row of the right dictionary
DetailsOk(w, k) ==
  IF k.unk THEN k.d = <<"UNK">>
  ELSE IF k.sys THEN \E i \in 1..Len(w.sys) : w.sys[i].s = k.t /\ w.sys[i].d = k.d
  ELSE w.hasu /\ \E i \in 1..Len(w.usr) : w.usr[i].s = k.t /\ UserRow(w, i).d = k.d

\* ---- T06: the tokens of the whole are the tokens of the parts
PartsOk(o) ==
  LET ss == Sentences(o.t)
      n == Len(ss)
      shift(k, b, m) == [k EXCEPT !.bs = @ + b, !.be = @ + b, !.p = @ + m]
      acc == FoldLeft(LAMBDA a, i :
               [ks |-> a.ks \o [j \in 1..Len(o.parts[i].k) |-> shift(o.parts[i].k[j], a.b, Len(a.ks))],
                b  |-> a.b + BLen(o.parts[i].t)],
               [ks |-> <<>>, b |-> 0], Idx(o.parts))
  IN /\ Len(o.parts) = n
     /\ \A i \in 1..n : o.parts[i].t = ss[i] /\ o.parts[i].r = "ok"
     /\ acc.ks = o.k

\* ---- T04: without a user word in the text the user dictionary changes nothing
UserWordOccurs(w, t) == \E i \in 1..Len(w.usr) : \E p \in 0..Len(t) : OccursAt(w.usr[i].s, t, p)

All == {"T01", "T02", "T03", "T04", "T05", "T06", "T07"}

TraceInit ==
  /\ c \in 1..Len(Cases)
  /\ TokInit
  /\ fails = {}
  /\ ti = -1

\* judge the parts of the observation that need no lattice
Observe ==
  /\ ti = -1
  /\ ti' = 0
  /\ LET w == TWorld(c)
     IN fails' =
          IF Obs.r = "nouser" THEN {"T04"}
          ELSE IF Obs.r # "ok" THEN All
          ELSE (IF (IF Gaps(w) THEN LooseTiles(Toks) ELSE Tiles(Toks, Obs.t)) THEN {} ELSE All) \cup
               (IF \A i \in 1..Len(Toks) : DetailsOk(w, Toks[i]) THEN {} ELSE {"T05"}) \cup
               (IF ~Obs.hp \/ PartsOk(Obs) THEN {} ELSE {"T06"}) \cup
               (IF Obs.nou.r = "none" \/ UserWordOccurs(w, Obs.t) \/ Obs.nou.k = Obs.k THEN {} ELSE {"T04"})
  /\ UNCHANGED tvars

\* the lattice edges an observed token can stand for
Explains(x, k, w) ==
  CASE x.k = "X" -> k.unk
    [] x.k = "S" -> ~k.unk /\ k.sys /\ w.sys[x.i].d = k.d
    [] x.k = "U" -> ~k.unk /\ ~k.sys /\ UserRow(w, x.i).d = k.d
    [] OTHER -> FALSE

\* cheapest cost of the observed tokens from index ti+1 on, as a path of lattice edges; -> set of
\* [x, q, cost] at the end of the sentence, together with the number of tokens consumed
RECURSIVE Walk(_, _, _)
Walk(i, q, acc) ==
  IF q >= to - from \/ acc = {} \/ i > Len(Toks) THEN [acc |-> acc, q |-> q, i |-> i]
  ELSE LET w == TWorld(c)
           k == Toks[i]
           e == q + Len(k.t)
       IN IF e > to - from THEN [acc |-> {}, q |-> e, i |-> i + 1]
          ELSE Walk(i + 1, e,
                 {[x |-> x,
                   cost |-> Entry(w, x.k, x.i).c
                            + SetMin({y.cost + Conn(w, Entry(w, y.x.k, y.x.i).r, Entry(w, x.k, x.i).l)
                                             + PenaltyOf(y.x, q) : y \in acc})]
                    : x \in {x \in lat[e + 1] : x.s = q /\ Explains(x, k, w)}})

Judge ==
  LET w == TWorld(c)
      r == Walk(ti + 1, 0, {[x |-> BOS, cost |-> 0]})
      isPath == r.acc # {} /\ r.q = to - from
      obsCost == SetMin({y.cost + Conn(w, Entry(w, y.x.k, y.x.i).r, 0) + PenaltyOf(y.x, to - from) : y \in r.acc})
      good == Reachable /\ isPath /\ obsCost = BestCost
      hasX == \E q \in 1..Len(lat) : \E x \in lat[q] : x.k = "X"
  IN IF Gaps(w) /\ ~Reachable THEN [i |-> ti, bad |-> {}]
     ELSE
     [i |-> r.i - 1,
      bad |-> IF good THEN (IF Gaps(w) /\ ~Placed(ti + 1, r.i - 1) THEN {"T01", "T06"} ELSE {})
              ELSE {"T05"} \cup (IF PenOf(c) = <<>> THEN {"T02"} ELSE {"T07"})
                   \cup (IF hasX THEN {"T03"} ELSE {})
                   \cup (IF w.hasu THEN {"T04"} ELSE {})
                   \cup (IF r.q # to - from THEN {"T06"} ELSE {})]

TraceClose ==
  /\ ti >= 0 /\ fails # All
  /\ CloseSentence
  /\ LET j == Judge IN ti' = j.i /\ fails' = fails \cup j.bad

Step(A) == ti >= 0 /\ fails # All /\ A /\ UNCHANGED <<fails, ti>>

TraceEnd ==
  /\ phase = "sentence" /\ (to = Len(TextOf(c)) \/ fails = All) /\ ti >= 0
  /\ phase' = "done"
  /\ fails' = IF fails # All /\ ti # Len(Toks) THEN All ELSE fails
  /\ UNCHANGED <<c, from, to, pos, lat, ue, ti>>

TraceNext == \/ Observe
             \/ Step(NextSentence)
             \/ Step(Expand)
             \/ TraceClose
             \/ TraceEnd
             \/ (phase = "done" /\ UNCHANGED vars)

TraceSpec == TraceInit /\ [][TraceNext]_vars

Conforms == phase = "done" => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
Built == \A i \in 1..Len(Worlds) : Worlds[i].built = "ok"
==================================================================================
