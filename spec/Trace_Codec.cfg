SPECIFICATION TraceSpec
CONSTANTS
 PROP = "D06"
INVARIANT Conforms
