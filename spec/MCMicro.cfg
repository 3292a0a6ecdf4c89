SPECIFICATION Spec
CONSTANTS NSlots = 2
 Vals <- MCVals
 Types <- MCTypes
 Cfgs <- MCCfgs
 Kinds = {1}
 Mvs = {0}
INVARIANTS NoErr Unique ReturnOk Rest NeverDangling OnlyKnownTermination
CHECK_DEADLOCK FALSE
