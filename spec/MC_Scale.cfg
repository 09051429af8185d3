SPECIFICATION SSpec
CONSTANTS
 WorldOf <- SWorld
 TextOf <- SText
 PenOf <- SPen
 MaxLen = 1
 Rich = FALSE
 XLen = 2
INVARIANTS PinHolds Lemma RunHolds
