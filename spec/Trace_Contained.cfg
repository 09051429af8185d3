SPECIFICATION TraceSpec
CONSTANTS
 HasOf <- THas
 AnswerOf <- TAnswer
 PROP = "D07"
 Expected = {}
INVARIANT Conforms
