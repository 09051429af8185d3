SPECIFICATION MCSpec
CONSTANTS
 MaxOps = 4
 MaxToks = 5
INVARIANTS ShownOk AnswerOk
CHECK_DEADLOCK FALSE
