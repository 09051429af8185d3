------------------------------- MODULE Trace_Fault -------------------------------
(* Recorded histories of builds and loads under faults.                              *)
EXTENDS Fault, Json, IOUtils, TLC
CONSTANT PROP
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
VARIABLES c, i, fails, done
vars == <<fvars, c, i, fails, done>>
Evs == Cases[c].evs
Ev == Evs[i]

TraceInit == c \in 1..Len(Cases) /\ i = 1 /\ FInit /\ fails = {} /\ done = FALSE
More == ~done /\ i <= Len(Evs)
Go == More /\ i' = i + 1 /\ UNCHANGED <<c, fails, done>>
Fail == More /\ fails' = {"D05"} /\ done' = TRUE /\ UNCHANGED <<fvars, c, i>>

Absent == {Ev.missing[j] : j \in 1..Len(Ev.missing)}
LoadRight == /\ Ev.r \in {"ok", "err"}
             /\ LoadOutcome \in {Ev.r, "any"}
             /\ Absent # {} => Ev.r = "err"                \* the files that are really missing
             \* the same dictionary as that version gives without faults
             /\ LoadOutcome = "ok" => made \in {Ev.is[j] : j \in 1..Len(Ev.is)}
BuildRight == Ev.r \in {"ok", "err"} /\ BuildOutcome \in {Ev.r, "any"}

OnHarm   == Go /\ Ev.op = "harm" /\ Harm(Ev.f, IF Ev.k = "dir" THEN "missing" ELSE Ev.k)
OnRepair == Go /\ Ev.op = "repair" /\ Repair(Ev.f)
OnDamage == Go /\ Ev.op = "damage" /\ Damage(Ev.f, Ev.k)
OnEdit   == Go /\ Ev.op = "edit" /\ Edit(Ev.v)
OnBuild  == Go /\ Ev.op = "build" /\ BuildRight /\ Build(Ev.r)
OnLoad   == Go /\ Ev.op = "load" /\ LoadRight /\ Load(Ev.r)
Wrong    == Fail /\ ((Ev.op = "build" /\ ~BuildRight) \/ (Ev.op = "load" /\ ~LoadRight))
Finish   == ~done /\ i > Len(Evs) /\ done' = TRUE /\ UNCHANGED <<fvars, c, i, fails>>

TraceNext == OnHarm \/ OnRepair \/ OnDamage \/ OnEdit \/ OnBuild \/ OnLoad \/ Wrong \/ Finish \/ (done /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == done => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
==================================================================================
