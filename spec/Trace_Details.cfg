SPECIFICATION TraceSpec
CONSTANTS
 PROP = "T05"
INVARIANT Conforms
