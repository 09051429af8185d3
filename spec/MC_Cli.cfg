SPECIFICATION MCSpec
CONSTANTS
 CmdsOf <- MCmds
 Analysis <- MAnalysis
 Embedded = {"ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"}
 Depth = 2
 MaxLen = 3
INVARIANTS RefusedPrintsNothing EveryLine Prefix Used Trimmed ReadBack
