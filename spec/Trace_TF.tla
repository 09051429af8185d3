-------------------------------- MODULE Trace_TF --------------------------------
(* Recorded runs of chains of token filters: the tokens after each filter must be   *)
(* a permitted outcome of the filter on the tokens before it.                       *)
EXTENDS TokenFilter, Json, IOUtils
CONSTANT PROP
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
Obs == Cases[c]
TFilters(x) == Cases[x].fs
TTokens(x) == Cases[x].k
TCased(x, i, ks) == Cases[x].st[i].u

VARIABLES fails, done
vars == <<tfvars, fails, done>>

TraceInit == c \in 1..Len(Cases) /\ TFInit /\ fails = {} /\ done = FALSE

\* the machine follows the observed tokens, wherever they are permitted
Follow ==
  /\ ~done /\ stage < Len(Obs.fs)
  /\ LET f == Obs.fs[stage + 1] s == Obs.st[stage + 1]
         ok == s.r = "ok" /\ Permitted(f, toks, s.u, s.k)
     IN /\ fails' = IF ok THEN fails ELSE fails \cup {PropOf(f)}
        /\ toks' = IF ok THEN s.k ELSE toks
        /\ done' = ~ok
  /\ stage' = stage + 1
  /\ UNCHANGED c
Finish == ~done /\ stage = Len(Obs.fs) /\ done' = TRUE /\ UNCHANGED <<tfvars, fails>>

TraceNext == Follow \/ Finish \/ (done /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == done => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
=================================================================================
