CONSTANTS
 NSlots = 4
 Vals <- MCVals
 Types <- MCTypes
 Live = {1, 2, 3}
 Kinds = {1}
 Poccas = {TRUE}
 Pocmas = {TRUE}
 Rule = TRUE
 Cfgs <- MCCfgs
SPECIFICATION Spec
INVARIANT NoRace
INVARIANT NoErr
INVARIANT Serial
INVARIANT Stays
CHECK_DEADLOCK FALSE
