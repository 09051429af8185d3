SPECIFICATION MCSpec
CONSTANTS
 FiltersOf <- MFilters
 TokensOf <- MTokens
 CasedOf <- MCased
 MaxToks = 3
 MaxChain = 2
INVARIANTS Ordered2 Covers SelectsOnly RewritesOnly Merges Complement
