SPECIFICATION TraceSpec
CONSTANTS
 CharsOf <- TChars
 FiltersOf <- TFilters
 OrigOf <- TOrig
 PiecesOf <- TPieces
 TokensOf <- TTokens
 ResultOf <- TResult
 PROP = "P01"
INVARIANT Conforms
