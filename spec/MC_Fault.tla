-------------------------------- MODULE MC_Fault ---------------------------------
(* All histories of faults, repairs, edits, builds and loads (the state space is      *)
(* finite and explored completely, for some of the targets, which are all alike); scenarios: every single fault and every pair of faults       *)
(* before a build, then repair, and every damage to a built dictionary.               *)
EXTENDS Fault, Json, IOUtils, SequencesExt, TLC
CONSTANT Pairs
Kinds == {"ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"}
Faults == Sources \X {"missing", "bad", "empty", "dir"}
Damages == (AllTargets \X {"missing", "dir"}) \cup (Decoded \X {"cut", "junk", "empty"})

MCNext == \/ \E f \in Sources, k \in {"missing", "bad", "empty"} : Harm(f, k)
          \/ \E f \in Sources : src[f] # "good" /\ Repair(f)
          \/ \E r \in {"ok", "err"} : Build(r) \/ Load(r)
          \/ \E v \in Versions : Edit(v)
          \/ \E d \in {d \in Damages : d[1] \in Targets} : (dst[d[1]] # "none" \/ d[2] = "dir") /\ Damage(d[1], d[2])
MCSpec == FInit /\ [][MCNext]_fvars

Op(o, f, k) == [op |-> o, f |-> f, k |-> k]
B == Op("build", "", "")  L == Op("load", "", "")
Single == {<<pre, {f}>> : pre \in BOOLEAN, f \in Faults}
Double == {<<TRUE, {f, g}>> : f, g \in Faults}
FaultScn(s) ==
  LET fs == SetToSeq(s[2])
  IN (IF s[1] THEN <<B, L>> ELSE <<>>) \o [i \in 1..Len(fs) |-> Op("harm", fs[i][1], fs[i][2])] \o <<B, L>>
     \o [i \in 1..Len(fs) |-> Op("repair", fs[i][1], "")] \o <<B, L>>
DamageScn(ds) == LET s == SetToSeq(ds) IN <<B, L>> \o [i \in 1..Len(s) |-> Op("damage", s[i][1], s[i][2])] \o <<L, B, L>>
\* the other version is built over the first one, after a good or a failed build, or not at all
Ed(v) == Op("edit", "", IF v = 1 THEN "1" ELSE "2")
EditScns == {<<B, L, Ed(2), L, B, L, Ed(1), B, L>>, <<Ed(2), B, L, Ed(1), B, L>>}
            \cup {<<B, Ed(2), Op("harm", f[1], f[2]), B, L, Op("repair", f[1], ""), B, L, Ed(1), L, B, L>> : f \in Faults}
            \cup {<<B, Op("damage", d[1], d[2]), Ed(2), B, L, Op("damage", d[1], "missing"), B, L>> : d \in Damages}
Scns == {FaultScn(s) : s \in Single \cup {d \in Double : Pairs /\ Cardinality({f[1] : f \in d[2]}) = 2}}
        \cup {DamageScn({d}) : d \in Damages} \cup EditScns
ASSUME "EXPORT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.EXPORT, SetToSeq({[kind |-> k, ops |-> s] : k \in Kinds, s \in Scns}))

\* what holds in every state
TypeOK == /\ src \in [Sources -> {"good", "missing", "bad", "empty"}]
          /\ dst \in [Targets -> {"none", "good", "bad", "blocked", "maybe"}]
          /\ ver \in Versions /\ made \in Versions \cup {0}
GoodIsMade == (\A t \in Targets : dst[t] = "good") => made # 0
FaultNeverOk == (\E f \in Sources : Faulty(f)) => ~ENABLED Build("ok")
RepairedOk == (~Blocked /\ \A f \in Sources : src[f] = "good") => ~ENABLED Build("err")
GoodLoads == (\A t \in Targets : dst[t] = "good") => ~ENABLED Load("err")
LostNeverLoads == (\E t \in Targets : dst[t] = "none") => ~ENABLED Load("ok")
Possible == ENABLED Build("ok") \/ ENABLED Build("err")
==================================================================================
