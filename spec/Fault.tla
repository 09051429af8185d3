---------------------------------- MODULE Fault ----------------------------------
(* Building and loading a dictionary while files go bad and are repaired, the source *)
(* is replaced by another version of it, and files of the target stand in the way.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Targets
Sources == {"csv", "char", "unk", "matrix"}
AllTargets == {"dict.da", "dict.vals", "dict.words", "dict.wordsidx", "char_def.bin", "unk.bin", "matrix.mtx"}
\* targets whose content the loader decodes
Decoded == {"dict.da", "char_def.bin", "unk.bin", "matrix.mtx"}
Versions == {1, 2}

VARIABLES src,    \* state of each source file: good, missing, bad, empty
          dst,    \* state of each target file: none, good, bad, blocked (a directory of that name is in the way),
                  \* maybe (a failed build may have written it)
          ver,    \* version of the source
          made,   \* version that the last successful build compiled
          out     \* outcome of the last operation: ok, err, or any if the property leaves it open
fvars == <<src, dst, ver, made, out>>

FInit == src = [f \in Sources |-> "good"] /\ dst = [t \in Targets |-> "none"] /\ ver = 1 /\ made = 0 /\ out = "-"

\* an empty unknown-word file has no entries, which is no fault by itself
Harmless == {<<"unk", "empty">>}
Faulty(f) == src[f] # "good" /\ <<f, src[f]>> \notin Harmless
Blocked == \E t \in Targets : dst[t] = "blocked"
BuildOutcome == IF Blocked \/ \E f \in Sources : Faulty(f) THEN "err" ELSE IF \E f \in Sources : src[f] # "good" THEN "any" ELSE "ok"

Harm(f, k) == src' = [src EXCEPT ![f] = k] /\ out' = "-" /\ UNCHANGED <<dst, ver, made>>
Repair(f) == Harm(f, "good")
\* the whole source is replaced by version v of it
Edit(v) == ver' = v /\ src' = [f \in Sources |-> "good"] /\ out' = "-" /\ UNCHANGED <<dst, made>>
\* result: what the build reported, ok or err
Build(result) ==
  /\ BuildOutcome \in {result, "any"}
  /\ IF result = "ok" /\ BuildOutcome = "ok"
     THEN dst' = [t \in Targets |-> "good"] /\ made' = ver
     ELSE dst' = [t \in Targets |-> IF dst[t] = "blocked" THEN "blocked" ELSE "maybe"] /\ made' = 0
  /\ out' = result /\ UNCHANGED <<src, ver>>
Damage(t, k) == /\ dst' = [dst EXCEPT ![t] = CASE k = "missing" -> "none" [] k = "dir" -> "blocked" [] OTHER -> "bad"]
                /\ out' = "-" /\ UNCHANGED <<src, ver, made>>
LoadOutcome == IF \E t \in Targets : dst[t] \in {"none", "blocked"} \/ (t \in Decoded /\ dst[t] = "bad") THEN "err"
               ELSE IF \A t \in Targets : dst[t] = "good" THEN "ok" ELSE "any"
Load(result) == LoadOutcome \in {result, "any"} /\ out' = result /\ UNCHANGED <<src, dst, ver, made>>
==================================================================================
