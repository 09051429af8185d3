-------------------------------- MODULE MC_Session --------------------------------
(* All interleavings of creating, cloning and dropping instances and calls by two     *)
(* threads.  hist remembers, per slot and per thread's calls, where they came from.   *)
EXTENDS Session, SequencesExt, Json, IOUtils
CONSTANTS Depth

MValue(k, t) == 10 * k + t
VARIABLES n,        \* events so far
          from,     \* slot -> the configuration it was last given, or its ancestor had when it was cloned
          results   \* set of <<configuration, text, result>>
mvars == <<svars, n, from, results>>
MCInit == SInit /\ n = 0 /\ from = [i \in Slots |-> 0] /\ results = {}
MCNext ==
  /\ n < Depth /\ n' = n + 1
  /\ \/ \E i \in Slots, k \in Configs : New(i, k) /\ from' = [from EXCEPT ![i] = k] /\ UNCHANGED results
     \/ \E i, j \in Slots : CloneTo(i, j) /\ from' = [from EXCEPT ![j] = from[i]] /\ UNCHANGED results
     \/ \E i \in Slots, k \in Configs : Change(i, k) /\ from' = [from EXCEPT ![i] = k] /\ UNCHANGED results
     \/ \E i \in Slots : Drop(i) /\ from' = [from EXCEPT ![i] = 0] /\ UNCHANGED results
     \/ \E h \in Threads, i \in Slots, t \in Texts : Begin(h, i, t) /\ UNCHANGED <<from, results>>
     \/ \E h \in Threads : End(h, MValue(call[h].c, call[h].t)) /\ results' = results \cup {<<call[h].c, call[h].t, MValue(call[h].c, call[h].t)>>} /\ UNCHANGED from
MCSpec == MCInit /\ [][MCNext \/ (n = Depth /\ UNCHANGED mvars)]_mvars

KeepsConfig == inst = from
Functional == \A x, y \in results : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]
\* a call can always end, whatever happened to its instance
CanEnd == \A h \in Threads : call[h] # Idle => ENABLED End(h, MValue(call[h].c, call[h].t))

(* --- the histories that are replayed: every one of up to Depth events, up to renaming --- *)
Low(S) == CHOOSE x \in S : \A y \in S : x <= y
Ev(a, i, j, k, h, t) == [a |-> a, i |-> i, j |-> j, k |-> k, h |-> h, t |-> t]
Events(is, cs) ==
  LET free == {i \in Slots : is[i] = 0} used == Slots \ free
      idle == {h \in Threads : cs[h] = 0} busy == Threads \ idle
  IN (IF free = {} THEN {} ELSE {Ev("new", Low(free), 0, k, 0, 0) : k \in Configs} \cup {Ev("clone", i, Low(free), 0, 0, 0) : i \in used})
     \cup {Ev("drop", i, 0, 0, 0, 0) : i \in used}
     \cup UNION {{Ev("change", i, 0, k, 0, 0) : k \in Configs \ {is[i]}} : i \in used}
     \cup {Ev("begin", i, 0, 0, h, t) : i \in used, h \in (IF idle = {} THEN {} ELSE {Low(idle)}), t \in Texts}
     \cup {Ev("end", 0, 0, 0, h, 0) : h \in busy}
RECURSIVE Hist(_, _, _)
\* histories that end with the end of a call
Hist(is, cs, d) ==
  IF d = 1 THEN {<<e>> : e \in {e \in Events(is, cs) : e.a = "end"}}
  ELSE UNION {LET is2 == IF e.a \in {"new", "change"} THEN [is EXCEPT ![e.i] = e.k] ELSE IF e.a = "clone" THEN [is EXCEPT ![e.j] = is[e.i]] ELSE IF e.a = "drop" THEN [is EXCEPT ![e.i] = 0] ELSE is
                  cs2 == IF e.a = "begin" THEN [cs EXCEPT ![e.h] = 1] ELSE IF e.a = "end" THEN [cs EXCEPT ![e.h] = 0] ELSE cs
              IN {<<e>> \o r : r \in Hist(is2, cs2, d - 1)} : e \in Events(is, cs)}
First == [i \in Slots |-> IF i = 1 THEN 1 ELSE 0]
ASSUME "EXPORT" \notin DOMAIN IOEnv
       \/ ndJsonSerialize(IOEnv.EXPORT, SetToSeq({[ev |-> <<Ev("new", 1, 0, 1, 0, 0)>> \o x] : x \in UNION {Hist(First, [h \in Threads |-> 0], d) : d \in 2..5}}))
====================================================================================
