----------------------------- MODULE Trace_Contained -----------------------------
(* Recorded histories of a program with contained dictionaries, against what the     *)
(* same sources answer once built into a directory and loaded from there (ref).      *)
EXTENDS Contained, Json, IOUtils, TLC
CONSTANTS PROP, Expected
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
Ref == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/ref.ndjson")
Ops == Cases[c].ops
THas(x) == Expected
RefOf(s) == Ref[CHOOSE i \in 1..Len(Ref) : Ref[i].s = s].r
TAnswer(s, u) == RefOf(s)["u" \o u]
VARIABLES at, fails
vars == <<cvars, at, fails>>
Seen == {Cases[c].has[i] : i \in 1..Len(Cases[c].has)}
TraceInit == c \in 1..Len(Cases) /\ ContInit /\ at = 1 /\ fails = IF Seen = Expected THEN {} ELSE {"D07"}
\* a load that should have failed leaves nothing to compare with: fails and ends there
TraceNext ==
  \/ /\ at <= Len(Ops) /\ Ops[at].op = "load"
     /\ LET want == IF Handle(Ops[at]) = Failed THEN "err" ELSE "ok"
        IN IF Ops[at].r = want THEN Load(Ops[at]) /\ at' = at + 1 /\ UNCHANGED fails
           ELSE fails' = fails \cup {"D07"} /\ at' = Len(Ops) + 1 /\ UNCHANGED cvars
  \/ /\ at <= Len(Ops) /\ Ops[at].op = "ask"
     /\ Ask(Ops[at].h) /\ at' = at + 1
     /\ fails' = IF Ops[at].r = answer' THEN fails ELSE fails \cup {"D07"}
  \/ (at > Len(Ops) /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == at > Len(Ops) => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
==================================================================================
