------------------------------ MODULE Trace_Codec --------------------------------
EXTENDS Codec, Json, IOUtils, TLC
CONSTANT PROP
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
VARIABLES c, i, fails, done
vars == <<kvars, c, i, fails, done>>
Evs == Cases[c].evs
Ev == Evs[i]
TraceInit == c \in 1..Len(Cases) /\ i = 1 /\ KInit /\ fails = {} /\ done = FALSE
More == ~done /\ i <= Len(Evs)
Step == /\ Ev.r \in {"ok", "err"}
        /\ CASE Ev.op = "pack" -> Ev.r = "ok" /\ Pack(Cases[c].data)
             [] Ev.op \in {"wire", "copy"} -> Ev.r = "ok" /\ Wire
             [] Ev.op = "corrupt" -> IF Ev.r = "ok" THEN Corrupt ELSE val' = Any /\ st' = "done" /\ UNCHANGED got
             [] Ev.op = "unpack" -> IF Ev.r = "ok" THEN Unpack(Ev.d) ELSE Lost
Go == More /\ Step /\ i' = i + 1 /\ UNCHANGED <<c, fails, done>>
Wrong == More /\ ~ENABLED Step /\ fails' = {"D06"} /\ done' = TRUE /\ UNCHANGED <<kvars, c, i>>
Finish == ~done /\ i > Len(Evs) /\ done' = TRUE /\ UNCHANGED <<kvars, c, i, fails>>
TraceNext == Go \/ Wrong \/ Finish \/ (done /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == done => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
==================================================================================
