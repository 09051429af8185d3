SPECIFICATION MCSpec
CONSTANTS
 Pairs = FALSE
 Targets = {"dict.da", "dict.words", "matrix.mtx"}
INVARIANTS TypeOK FaultNeverOk RepairedOk GoodIsMade GoodLoads LostNeverLoads Possible
