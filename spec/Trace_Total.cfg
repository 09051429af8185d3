SPECIFICATION TraceSpec
CONSTANTS
 CharsOf <- TChars
 FiltersOf <- TFilters
 OrigOf <- TOrig
 PiecesOf <- TPieces
 TokensOf <- TTokens
 ResultOf <- TResult
 PROP = "P04"
INVARIANT Conforms
