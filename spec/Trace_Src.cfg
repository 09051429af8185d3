SPECIFICATION TraceSpec
CONSTANTS
 TypeOf <- TType
 KindOf <- TKind
 LinesOf <- TLines
 PROP = "D01"
INVARIANT Conforms
