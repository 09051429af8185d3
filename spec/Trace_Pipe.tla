-------------------------------- MODULE Trace_Pipe --------------------------------
(* Recorded analyses.  The stages - each character filter, the tokenizer, each token  *)
(* filter - were also run one by one, each on the result of the one before; however   *)
(* the analyzer was made, it must return what the stages lead to.                     *)
EXTENDS Pipeline, Json, IOUtils
CONSTANT PROP
Cases == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/cases.ndjson")
Obs == Cases[c]
TChars(x) == Cases[x].cf
TFilters(x) == Cases[x].tf
TOrig(x) == Cases[x].t
SpecPieces(x, i, t) == Pieces(Cases[x].cf[i], t, Cases[x].nd, Cases[x].np, Cases[x].g[i])
\* where a filter itself is not as specified, nothing is known about its pieces
TPieces(x, i, t) == LET ps == SpecPieces(x, i, t) IN IF OutText(ps) = Cases[x].st[i] THEN ps ELSE <<Repl(t, Cases[x].st[i])>>
TTokens(x, t) == {Cases[x].kt}
TResult(x, i, ks) == Cases[x].ts[i]

VARIABLES fails, off
vars == <<pvars, fails, off>>
TraceInit == c \in 1..Len(Cases) /\ PInit /\ fails = {} /\ off = FALSE

Stage == \/ CharStep /\ off' = (off \/ OutText(SpecPieces(c, step + 1, cur)) # Obs.st[step + 1]) /\ UNCHANGED fails
         \/ (Tokenize \/ TokenStep) /\ UNCHANGED <<fails, off>>
Judge ==
  /\ Finish
  /\ fails' = IF \A i \in 1..Len(Obs.rt) : Obs.rt[i].r = "ok" /\ Returns(Obs.rt[i].k, ~off) THEN {} ELSE {"P01"}
  /\ UNCHANGED off
TraceNext == Stage \/ Judge \/ (phase = "done" /\ UNCHANGED vars)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Conforms == phase = "done" => (PROP \notin fails \/ (PrintT(<<"FAIL", PROP, c>>) /\ FALSE))
===================================================================================
