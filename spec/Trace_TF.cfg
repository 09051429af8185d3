SPECIFICATION TraceSpec
CONSTANTS
 FiltersOf <- TFilters
 TokensOf <- TTokens
 CasedOf <- TCased
 PROP = "K01"
INVARIANT Conforms
