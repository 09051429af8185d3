---------------------------------- MODULE Dict ----------------------------------
(* What a dictionary means.  A world w is a record of dictionary sources:          *)
(*   sys, usr : rows [s surface, l left id, r right id, c cost, d details,         *)
(*              m three-column?, w the two raw columns of a three-column row]      *)
(*   cats : [n name, inv invoke, grp group]   rng : [lo, hi, cs category numbers]  *)
(*   unk  : [k category, l, r, c]             mat : mat[right id + 1][left id + 1] *)
EXTENDS Text

Star(n) == [i \in 1..n |-> "*"]

\* layout of the details of a three-column user row: <<surface>>, column 2, column 3
SimpleDetails(kind, surf, c2, c3) ==
  CASE kind \in {"ipadic", "ipadic-neologd"} -> <<c2>> \o Star(5) \o <<surf, c3>> \o Star(1)
    [] kind = "unidic"    -> <<c2>> \o Star(5) \o <<c3>> \o Star(10)
    [] kind = "ko-dic"    -> <<c2>> \o Star(2) \o <<c3>> \o Star(4)
    [] kind = "cc-cedict" -> <<c2>> \o Star(3) \o <<c3>> \o Star(3)

\* Row i of the user dictionary of w, as the user dictionary means it.
\* (The surface as a string, needed by some layouts, is d[7] of the recorded row.)
UserRow(w, i) ==
  LET u == w.usr[i]
  IN IF u.m
     THEN [s |-> u.s, l |-> 0, r |-> 0, c |-> -10000,
           d |-> SimpleDetails(w.kind, IF Len(u.d) >= 7 THEN u.d[7] ELSE "", u.w[1], u.w[2])]
     ELSE [s |-> u.s, l |-> u.l, r |-> u.r, c |-> u.c, d |-> u.d]

Conn(w, right, left) == w.mat[right + 1][left + 1]

DefaultCat(w) == {k \in 1..Len(w.cats) : w.cats[k].n = "DEFAULT"}

\* categories of a character: those of all ranges that contain it, in order, without repeats
CatsOf(w, c) ==
  LET add(a, k) == IF \E j \in 1..Len(a) : a[j] = k THEN a ELSE Append(a, k)
      cs == FoldLeft(LAMBDA a, r : IF r.lo <= c /\ c <= r.hi THEN FoldLeft(add, a, r.cs) ELSE a, <<>>, w.rng)
  IN IF cs = <<>> THEN SetToSeq(DefaultCat(w)) ELSE cs

(* Candidate words at position p (0-based) of sentence t.  An edge is               *)
(*   [k |-> "U" user / "S" system / "X" unknown, i |-> row, e |-> end position]     *)
UserEdges(w, t, p) ==
  IF ~w.hasu THEN {}
  ELSE {[k |-> "U", i |-> i, e |-> p + Len(w.usr[i].s)] :
           i \in {i \in 1..Len(w.usr) : OccursAt(w.usr[i].s, t, p)}}
SysEdges(w, t, p) ==
  {[k |-> "S", i |-> i, e |-> p + Len(w.sys[i].s)] :
      i \in {i \in 1..Len(w.sys) : OccursAt(w.sys[i].s, t, p)}}

\* number of characters from p that have category k at rank r (the first one counts)
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(w, t, q, r, k) ==
  IF q >= Len(t) THEN q
  ELSE LET cs == CatsOf(w, t[q + 1])
       IN IF Len(cs) >= r /\ cs[r] = k THEN RunFrom(w, t, q + 1, r, k) ELSE q

\* unknown words at p; ue is the end of the latest unknown-word candidate so far (-1: none)
UnkEdges(w, t, p, found, ue) ==
  LET cs == CatsOf(w, t[p + 1])
  IN FoldLeft(
       LAMBDA acc, r :
         LET k == cs[r]
         IN IF w.cats[k].inv \/ ~found
            THEN LET e == IF w.cats[k].grp THEN RunFrom(w, t, p + 1, r, k) ELSE p + 1
                 IN [edges |-> acc.edges \cup
                                 {[k |-> "X", i |-> u, e |-> e] : u \in {u \in 1..Len(w.unk) : w.unk[u].k = k}},
                     ue    |-> e]
            ELSE acc,
       [edges |-> {}, ue |-> ue], Idx(cs))

Entry(w, k, i) == CASE k = "U" -> UserRow(w, i)
                    [] k = "S" -> w.sys[i]
                    [] k = "X" -> w.unk[i]
                    [] k = "B" -> [l |-> 0, r |-> 0, c |-> 0]

(* Length penalty of decompose mode.  pen = <<>> (normal) or                        *)
(* <<kanji threshold, kanji penalty, other threshold, other penalty>>.              *)
IsKanji(c) == 19968 <= c /\ c <= 40879
Penalty(pen, word) ==
  IF pen = <<>> \/ word = <<>> THEN 0
  ELSE LET n == BLen(word) \div 3
       IN IF n <= pen[1] THEN 0
          ELSE IF \A j \in 1..Len(word) : IsKanji(word[j]) THEN (n - pen[1]) * pen[2]
          ELSE IF n > pen[3] THEN (n - pen[3]) * pen[4]
          ELSE 0
=================================================================================
