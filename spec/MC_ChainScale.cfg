SPECIFICATION SSpec
CONSTANTS
 ChainOf <- SChain
 OrigOf <- SOrig
 UnicodeOf <- MUni
 MaxLen = 3
 MaxChain = 2
 Times = 3
INVARIANTS Periodic OffsetsMove
