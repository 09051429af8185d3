--------------------------------- MODULE Compile --------------------------------
(* The dictionary compiler as a state machine: it reads the lines of a source one    *)
(* by one, then decides whether the source compiles.  The source c is chosen at the  *)
(* start; TypeOf/KindOf/LinesOf describe it.  A line is [f file, x content].         *)
EXTENDS Source
CONSTANTS TypeOf(_), KindOf(_), LinesOf(_)
VARIABLES c,      \* the source
          left,   \* line numbers not read yet
          acc,    \* what has been read
          res     \* "run", then "ok", "err" or "any"
cvars == <<c, left, acc, res>>

Start(ty) == CASE ty = "words" -> WordsInit [] ty = "user" -> UserInit [] ty = "matrix" -> MatInit [] ty = "defs" -> DefsInit
Step(ty, kind, a, l) ==
  CASE ty = "words"  -> WordsStep(kind, a, l.f, l.x)
    [] ty = "user"   -> UserStep(kind, a, l.x)
    [] ty = "matrix" -> MatStep(a, l.x)
    [] ty = "defs"   -> IF l.f = 1 THEN CharStep(a, l.x) ELSE UnkStep(kind, a, l.x)
Verdict(ty, a) ==
  CASE ty = "words" -> WordsVerdict(a) [] ty = "user" -> UserVerdict(a) [] ty = "matrix" -> MatVerdict(a) [] ty = "defs" -> DefsVerdict(a)

CompileInit == left = 1..Len(LinesOf(c)) /\ acc = Start(TypeOf(c)) /\ res = "run"
Read(i) == /\ res = "run" /\ i \in left
           /\ left' = left \ {i}
           /\ acc' = Step(TypeOf(c), KindOf(c), acc, LinesOf(c)[i])
           /\ UNCHANGED <<c, res>>
Close == /\ res = "run" /\ left = {}
         /\ res' = Verdict(TypeOf(c), acc)
         /\ UNCHANGED <<c, left, acc>>
=================================================================================
