------------------------------- MODULE Trace_Total -------------------------------
(* Recorded runs of the real code: every one of them must have ended in one of the    *)
(* ways the machine of Total can end.  Seen are counted by configuration and ending.  *)
EXTENDS Total, Json, IOUtils
CONSTANT PROP
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
TChars(x) == Cases[x].conf.cf
TFilters(x) == Cases[x].conf.tf
\* what the stages make of the text is not followed here, only that they end
TOrig(x) == <<>>
TPieces(x, i, t) == <<>>
TTokens(x, t) == {<<>>}
TResult(x, i, ks) == ks
Outcome == IF phase = "done" THEN "ok" ELSE "err"
VARIABLES at, fails
vars == <<pvars, at, fails>>
TraceInit == c \in 1..Len(Cases) /\ PInit /\ at = 1 /\ fails = {}
Seen == Cases[c].runs
\* the machine takes the way out that was seen; where there is none, the run is not one of its
TraceNext ==
  \/ /\ at <= Len(Seen) /\ ~Ended
     /\ IF Seen[at].r \notin Endings THEN fails' = {"P04"} /\ at' = Len(Seen) + 1 /\ UNCHANGED pvars
        ELSE (IF Seen[at].r = "err" THEN Stop ELSE PNext) /\ UNCHANGED <<at, fails>>
  \/ /\ at <= Len(Seen) /\ Ended
     /\ fails' = (IF Seen[at].r = Outcome THEN fails ELSE {"P04"})
     /\ at' = at + 1 /\ c' = c /\ phase' = "chars" /\ step' = 0 /\ cur' = <<>> /\ exts' = <<>> /\ toks' = <<>>
  \/ (at > Len(Seen) /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == at > Len(Seen) => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
==================================================================================
