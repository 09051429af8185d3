------------------------------ MODULE Trace_Details ------------------------------
EXTENDS Details, Json, IOUtils, TLC
CONSTANT PROP
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
VARIABLES c, i, fails, done
vars == <<dvars, c, i, fails, done>>
Evs == Cases[c].evs
Ev == Evs[i]
TraceInit == c \in 1..Len(Cases) /\ i = 1 /\ DetInit /\ fails = {} /\ done = FALSE
More == ~done /\ i <= Len(Evs)
Step ==
  CASE Ev.op = "again" -> Tokenize(Cases[c].rows)
    [] Ev.op = "read" -> Read(Ev.i, Ev.d)
    [] Ev.op = "set" -> Put(Ev.i, Ev.d)
    [] Ev.op = "unset" -> TakeBack(Ev.i)
    [] Ev.op = "copy" -> CopyTok(Ev.i)
    [] OTHER -> FALSE                                        \* a panic, or another number of tokens
Go == More /\ Step /\ i' = i + 1 /\ UNCHANGED <<c, fails, done>>
Wrong == More /\ ~ENABLED Step /\ fails' = {"T05"} /\ done' = TRUE /\ UNCHANGED <<dvars, c, i>>
Finish == ~done /\ i > Len(Evs) /\ done' = TRUE /\ UNCHANGED <<dvars, c, i, fails>>
TraceNext == Go \/ Wrong \/ Finish \/ (done /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == done => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
==================================================================================
