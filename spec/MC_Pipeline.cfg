SPECIFICATION MCSpec
CONSTANTS
 CharsOf <- MChars
 FiltersOf <- MFilters
 OrigOf <- MOrig
 PiecesOf <- MPieces
 TokensOf <- MTokens
 ResultOf <- MResult
 MaxLen = 3
 MaxChars = 2
 MaxFilters = 2
INVARIANTS InRange InOrder Exact Plain Self
