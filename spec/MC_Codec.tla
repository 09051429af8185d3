-------------------------------- MODULE MC_Codec ---------------------------------
EXTENDS Codec, FiniteSets, SequencesExt, Json, IOUtils
CONSTANT MaxLen, MaxOps
Algs == {"deflate", "zlib", "gzip", "raw"}
Data == UNION {[1..n -> {0, 97, 255}] : n \in 0..MaxLen}
Ops == UNION {[1..n -> {"wire", "copy", "corrupt"}] : n \in 0..MaxOps}
VARIABLES d, ops, i
MCInit == KInit /\ d \in Data /\ ops \in Ops /\ i = 0
MCNext ==
  \/ Pack(d) /\ UNCHANGED <<d, ops, i>>
  \/ /\ i < Len(ops) /\ st = "packed"
     /\ \/ ops[i + 1] \in {"wire", "copy"} /\ Wire
        \/ ops[i + 1] = "corrupt" /\ Corrupt
     /\ i' = i + 1 /\ UNCHANGED <<d, ops>>
  \/ st = "done" /\ UNCHANGED <<kvars, d, ops, i>>
  \/ i = Len(ops) /\ (Lost \/ \E x \in Data : Unpack(x)) /\ UNCHANGED <<d, ops, i>>
MCSpec == MCInit /\ [][MCNext]_<<kvars, d, ops, i>>
RoundTrip == (st = "done" /\ got.k = "bytes" /\ ~\E j \in 1..Len(ops) : ops[j] = "corrupt") => got.b[1] = d
Stands == (st = "packed" /\ (\A j \in 1..i : ops[j] # "corrupt")) => val.b[1] = d
ASSUME "EXPORT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.EXPORT, SetToSeq([alg : Algs, data : Data, ops : Ops]))
==================================================================================
