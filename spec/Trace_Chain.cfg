SPECIFICATION TraceSpec
CONSTANTS
 ChainOf <- TChain
 OrigOf <- TOrig
 UnicodeOf <- TUni
 PROP = "F01"
INVARIANT Conforms
