SPECIFICATION MCSpec
CONSTANTS
 MaxLen = 3
 MaxOps = 2
INVARIANTS RoundTrip Stands
