---------------------------------- MODULE Total ----------------------------------
(* Every run ends.  An analysis may stop with an error at any stage; there is no     *)
(* other way out of the machine than its result or an error.                         *)
EXTENDS Pipeline

Stop == phase \in {"chars", "tokens"} /\ phase' = "error" /\ UNCHANGED <<c, step, cur, exts, toks>>
TotalNext == PNext \/ Stop
Ended == phase \in {"done", "error"}
\* how a run may end, as seen from outside
Endings == {"ok", "err"}
Scalar(x) == x \in 0..55295 \/ x \in 57344..1114111
==================================================================================
