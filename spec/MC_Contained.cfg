SPECIFICATION MCSpec
CONSTANTS
 HasOf <- MHas
 AnswerOf <- MAnswer
 Depth = 3
INVARIANTS Precedence NoSubstitute Own
