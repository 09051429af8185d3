SPECIFICATION TraceSpec
CONSTANTS
 Slots = {1, 2, 3, 4, 5, 6}
 Threads = {1, 2, 3, 4}
 Configs = {1, 2, 3, 4, 5, 6}
 Texts = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
 Value <- TValue
 PROP = "T08"
INVARIANT Conforms
