SPECIFICATION MCSpec
CONSTANTS
 CharsOf <- MChars
 FiltersOf <- MFilters
 OrigOf <- MOrig
 PiecesOf <- MPieces
 TokensOf <- MTokens
 ResultOf <- MResult
 Deep = FALSE
INVARIANTS TextAgain TokensAgain
PROPERTY Ends
