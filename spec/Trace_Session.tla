------------------------------ MODULE Trace_Session ------------------------------
(* Recorded histories: every call must return what a new process, running nothing    *)
(* else, returns for the same configuration and text (Obs.base).                     *)
EXTENDS Session, Json, IOUtils
CONSTANT PROP
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
VARIABLES c, at, fails, done
vars == <<svars, c, at, fails, done>>
Obs == Cases[c]
TValue(k, t) == Obs.base[k][t]

TraceInit == c \in 1..Len(Cases) /\ SInit /\ at = 1 /\ fails = {} /\ done = FALSE
E == Obs.ev[at]
Step ==
  /\ ~done /\ at <= Len(Obs.ev)
  /\ at' = at + 1
  /\ CASE E.a = "new" -> New(E.i, E.k) /\ fails' = (IF E.r = <<0>> THEN fails ELSE {"T08"})
       [] E.a = "change" -> Change(E.i, E.k) /\ fails' = (IF E.r = <<0>> THEN fails ELSE {"T08"})
       \* copy: a clone by way of serialized dictionaries
       [] E.a \in {"clone", "copy"} -> CloneTo(E.i, E.j) /\ fails' = (IF E.r = <<0>> THEN fails ELSE {"T08"})
       [] E.a = "drop" -> Drop(E.i) /\ fails' = (IF E.r = <<0>> THEN fails ELSE {"T08"})
       [] E.a = "begin" -> Begin(E.h, E.i, E.t) /\ UNCHANGED fails
       \* r: the distinct results of the call, which was made several times in a row
       [] E.a = "end" -> \/ Len(E.r) = 1 /\ End(E.h, E.r[1]) /\ UNCHANGED fails
                         \/ E.r # <<TValue(call[E.h].c, call[E.h].t)>> /\ call' = [call EXCEPT ![E.h] = Idle] /\ fails' = {"T08"} /\ UNCHANGED inst
  /\ UNCHANGED <<c, done>>
Finish == ~done /\ at > Len(Obs.ev) /\ done' = TRUE /\ UNCHANGED <<svars, c, at, fails>>
TraceNext == Step \/ Finish \/ (done /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == done => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
==================================================================================
