SPECIFICATION MCSpec
CONSTANTS
 WorldOf <- MWorld
 TextOf <- MText
 PenOf <- MPen
 MaxLen = 3
 Rich = FALSE
INVARIANTS Optimal AlwaysReachable WordsReach WellFormed KnownMatch UnkSpacing SplitOk PenaltySane
