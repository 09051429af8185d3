SPECIFICATION TraceSpec
CONSTANTS
 WorldOf <- TWorld
 TextOf <- TText
 PenOf <- TPen
 PROP = "T02"
INVARIANT Conforms
