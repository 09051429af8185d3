------------------------------ MODULE MC_Contained ------------------------------
(* Every program (set of contained kinds) x every history of loads and questions.  *)
EXTENDS Contained, Json, IOUtils, SequencesExt, TLC
CONSTANT Depth
Kinds == {"ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"}
KindOf(n) == IF n = "A" THEN "unidic" ELSE n
F(k, p, uk, un, ue) == [op |-> "load", k |-> k, p |-> p, uk |-> uk, un |-> un, ue |-> ue]
Pool == {F(k, "", "", "", "") : k \in Kinds}
        \cup {F(k, "", k, k, "csv") : k \in Kinds}
        \cup {F("", k, KindOf(k), k, "csv") : k \in {"unidic", "A"}}
        \cup {F("unidic", "A", "", "A", "bin"), F("", "A", "", "", ""), F("", "ko-dic", "ipadic", "A", "bin"),
              F("cc-cedict", "ipadic", "", "", ""), F("", "", "", "", ""), F("ipadic", "", "", "ipadic", "csv")}
Small == {F(k, "", "", "", "") : k \in {"ipadic", "unidic"}}
         \cup {F("ipadic", "A", "ipadic", "ipadic", "csv"), F("", "A", "", "unidic", "bin"), F("", "", "", "", ""), F("unidic", "", "", "A", "csv")}
MHas(x) == x.has
MAnswer(s, u) == <<s, u>>
VARIABLES loaded, asked
MCInit == c \in [has : SUBSET {"ipadic", "unidic"}] /\ ContInit /\ loaded = <<>> /\ asked = 0
MCNext == \/ \E f \in Small : Len(loaded) < Depth /\ Load(f) /\ loaded' = Append(loaded, f) /\ asked' = 0
          \/ \E h \in 1..Len(handles) : Ask(h) /\ asked' = h /\ UNCHANGED loaded
MCEnd == Len(loaded) = Depth /\ UNCHANGED <<cvars, loaded, asked>>
MCSpec == MCInit /\ [][MCNext \/ MCEnd]_<<cvars, loaded, asked>>

\* a kind takes precedence over a directory, and only what is contained can be had
Precedence == \A h \in 1..Len(handles) : (handles[h] # Failed /\ loaded[h].k # "") => handles[h].s = loaded[h].k /\ loaded[h].k \in c.has
NoSubstitute == \A h \in 1..Len(handles) : (loaded[h].k # "" /\ loaded[h].k \notin c.has) => handles[h] = Failed
\* answers belong to the handle asked, whatever was loaded or asked since
Own == asked # 0 => answer = <<handles[asked].s, handles[asked].u>> /\ (loaded[asked].ue = "" => handles[asked].u = "")

A(h) == [op |-> "ask", h |-> h]
ASSUME "EXPORT" \notin DOMAIN IOEnv
       \/ ndJsonSerialize(IOEnv.EXPORT, SetToSeq({<<f, g, A(1), A(2), A(1)>> : f \in Pool, g \in Pool}))
=================================================================================
