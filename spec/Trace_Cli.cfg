SPECIFICATION TraceSpec
CONSTANTS
 CmdsOf <- TCmds
 Analysis <- TAnalysis
 Embedded = {"ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"}
 PROP = "P03"
INVARIANT Conforms
