SPECIFICATION TraceSpec
CONSTANTS
 Embedded = {}
 ConfigOf <- TConfigOf
 PROP = "P02"
INVARIANT Conforms
