-------------------------------- MODULE Contained --------------------------------
(* A program that contains dictionaries.  Each was built from a source into the      *)
(* program; others were built into directories.  Loading a configuration gives a     *)
(* handle or fails; asking a handle anything gives what the dictionary built from    *)
(* that source into a directory, with that user dictionary, answers.                 *)
EXTENDS Sequences, Naturals, FiniteSets

CONSTANTS HasOf(_),        \* kinds contained in the program of history c
          AnswerOf(_, _)   \* source, user dictionary -> everything that can be asked
VARIABLES c, handles, answer
cvars == <<c, handles, answer>>

Failed == [s |-> "failed", u |-> ""]
\* configuration: kind k, directory p; user dictionary: kind uk, name un, extension ue ("" if absent)
SourceOf(f) == IF f.k # "" THEN (IF f.k \in HasOf(c) THEN f.k ELSE "failed") ELSE IF f.p # "" THEN f.p ELSE "failed"
UserOf(f) == CASE f.ue = "" -> ""
               [] f.ue = "bin" -> f.un
               [] f.ue = "csv" -> IF f.uk = "" THEN "failed" ELSE f.un
Handle(f) == IF SourceOf(f) = "failed" \/ UserOf(f) = "failed" THEN Failed ELSE [s |-> SourceOf(f), u |-> UserOf(f)]

ContInit == handles = <<>> /\ answer = <<>>
Load(f) == handles' = Append(handles, Handle(f)) /\ answer' = <<>> /\ UNCHANGED c
Ask(h) ==
  /\ h \in 1..Len(handles) /\ handles[h] # Failed
  /\ answer' = AnswerOf(handles[h].s, handles[h].u)
  /\ UNCHANGED <<c, handles>>
==================================================================================
