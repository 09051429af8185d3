SPECIFICATION MCSpec
CONSTANTS
 Slots = {1, 2, 3}
 Threads = {1, 2}
 Configs = {1, 2}
 Texts = {1, 2}
 Value <- MValue
 Depth = 8
INVARIANTS KeepsConfig Functional CanEnd
