SPECIFICATION TraceSpec
CONSTANTS
 PROP = "D05"
 Targets = {}
INVARIANT Conforms
