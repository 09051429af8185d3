---------------------------------- MODULE Codec ----------------------------------
(* A compressed value stands for some bytes, through serialization and copies.       *)
EXTENDS Integers, Sequences
Bytes(d) == [k |-> "bytes", b |-> <<d>>]
NoBytes == [k |-> "none", b |-> <<>>]
Any == [k |-> "any", b |-> <<>>]
VARIABLES val,    \* what the value at hand stands for: bytes, NoBytes before and after, Any if corrupt
          got,    \* the bytes decompressed last
          st      \* "start", "packed", "done"
kvars == <<val, got, st>>
KInit == val = NoBytes /\ got = NoBytes /\ st = "start"
Pack(d) == st = "start" /\ val' = Bytes(d) /\ st' = "packed" /\ UNCHANGED got
Wire == st = "packed" /\ UNCHANGED kvars                         \* serialize and read back
Copy == Wire
Corrupt == st = "packed" /\ val' = Any /\ UNCHANGED <<got, st>>
Lost == st = "packed" /\ val.k = "any" /\ st' = "done" /\ UNCHANGED <<val, got>>    \* corrupt data is an error
Unpack(d) == st = "packed" /\ (val.k = "any" \/ (val.k = "bytes" /\ val.b[1] = d)) /\ got' = Bytes(d) /\ st' = "done" /\ UNCHANGED val
==================================================================================
