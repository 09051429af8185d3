---------------------------- MODULE Trace_Chain ----------------------------
(* Every recorded run of a chain of character filters is replayed on Chain:    *)
(* the text after each filter must be the specified one (F01, F02), and the    *)
(* byte ranges of the tokens cut from the final text must refer back to the    *)
(* original (F03).                                                             *)
EXTENDS Chain, Json, IOUtils

CONSTANT PROP
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
Obs == Cases[c]

TChain(x) == Cases[x].fs
TOrig(x) == Cases[x].t
TUni(x, i) == [D |-> Cases[x].nd, P |-> Cases[x].np, g |-> Cases[x].g[i]]

VARIABLES fails, off, done   \* off: the observed text left the specified one; its offsets are not judged
vars == <<cvars, fails, off, done>>

PropOf(f) == IF f.k = "iter" THEN "F02" ELSE "F01"

TraceInit == c \in 1..Len(Cases) /\ ChainInit /\ fails = {} /\ off = FALSE /\ done = FALSE

\* observed texts: Obs.st[i] is [r, o], the result of filter i on the observed text before it
StepFilter ==
  /\ ~done /\ ~off /\ stage < Len(Obs.fs)
  /\ ApplyFilter
  /\ LET s == Obs.st[stage + 1]
     IN /\ off' = (s.r # "ok" \/ s.o # cur')
        /\ fails' = IF off' THEN fails \cup {PropOf(Obs.fs[stage + 1])} ELSE fails
  /\ UNCHANGED done

\* ---- F03
\* wherever the text came from: ranges lie in the original, on boundaries, in order
Sane ==
  LET n == Len(Obs.k)
  IN \E bs \in {ToSet(BOffs(Obs.t))} :
     \A i \in 1..n : /\ Obs.k[i].bs \in bs /\ Obs.k[i].be \in bs
                      /\ Obs.k[i].bs <= Obs.k[i].be
                      /\ i > 1 => (Obs.k[i-1].bs <= Obs.k[i].bs /\ Obs.k[i-1].be <= Obs.k[i].be)
\* each end refers to a place it may refer to
Refer ==
  LET n == Len(Obs.k)
  IN /\ Concat([i \in 1..n |-> Obs.k[i].t]) = cur
     /\ \E ends \in {FoldLeft(LAMBDA a, k : Append(a, a[Len(a)] + BLen(k.t)), <<0>>, Obs.k)} :
          \A i \in 1..n : Obs.k[i].bs \in RefersTo(ends[i]) /\ Obs.k[i].be \in RefersTo(ends[i + 1])

Finish ==
  /\ ~done /\ (off \/ stage = Len(Obs.fs))
  /\ done' = TRUE
  /\ fails' = fails \cup
       (IF ~Obs.hk THEN {}
        ELSE IF Obs.kr # "ok" THEN (IF off THEN {} ELSE {"F03"})
        ELSE IF Sane /\ (off \/ Refer) THEN {} ELSE {"F03"})
  /\ UNCHANGED <<cvars, off>>

TraceNext == StepFilter \/ Finish \/ (done /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == done => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
=============================================================================
