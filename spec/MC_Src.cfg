SPECIFICATION MCSpec
CONSTANTS
 TypeOf <- MType
 KindOf <- MKind
 LinesOf <- Lines
 MaxLines = 3
 TYPE = "words"
INVARIANTS VerdictIndependent Lex Mat Def
PROPERTY Sticky
