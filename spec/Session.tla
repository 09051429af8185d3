---------------------------------- MODULE Session ----------------------------------
(* Instances, their clones, and calls by threads.  An instance is its configuration   *)
(* and nothing else; a call returns what its instance's configuration makes of the    *)
(* text, whatever happened before or happens meanwhile.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots, Threads, Configs, Texts, Value(_, _)

VARIABLES inst,   \* slot -> configuration; 0: no instance
          call    \* thread -> [c: configuration, t: text] of the call in flight, or Idle
svars == <<inst, call>>
Idle == [c |-> 0, t |-> 0]

SInit == inst = [i \in Slots |-> 0] /\ call = [h \in Threads |-> Idle]

New(i, k) == inst[i] = 0 /\ inst' = [inst EXCEPT ![i] = k] /\ UNCHANGED call
CloneTo(i, j) == inst[i] # 0 /\ inst[j] = 0 /\ inst' = [inst EXCEPT ![j] = inst[i]] /\ UNCHANGED call
\* the public fields of an instance are set to those of another configuration
Change(i, k) == inst[i] \notin {0, k} /\ inst' = [inst EXCEPT ![i] = k] /\ UNCHANGED call
\* a handle may be dropped while a call that holds another is in flight
Drop(i) == inst[i] # 0 /\ inst' = [inst EXCEPT ![i] = 0] /\ UNCHANGED call
Begin(h, i, t) == call[h] = Idle /\ inst[i] # 0 /\ call' = [call EXCEPT ![h] = [c |-> inst[i], t |-> t]] /\ UNCHANGED inst
\* r: the result
End(h, r) == call[h] # Idle /\ r = Value(call[h].c, call[h].t) /\ call' = [call EXCEPT ![h] = Idle] /\ UNCHANGED inst
====================================================================================
