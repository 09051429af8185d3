SPECIFICATION MCSpec
CONSTANTS
 ChainOf <- MChain
 OrigOf <- MOrig
 UnicodeOf <- MUni
 MaxLen = 3
 MaxChain = 2
INVARIANTS PiecesCut MapGreedy RexLeftmost IterMarks OffsetsOk
