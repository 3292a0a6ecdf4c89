SPECIFICATION Spec
CONSTANTS NSlots = 2
 Vals <- MCVals
 Types <- MCTypes
 Cfgs <- MCCfgs
 Kinds = {1}
 Aes = {FALSE}
 Poccas = {TRUE}
 Pocmas = {TRUE}
 Pocss = {TRUE, FALSE}
 Sels = {TRUE, FALSE}
 Mvs = {0}
 Emit = TRUE
VIEW View
ACTION_CONSTRAINT Edges
INVARIANTS Terms States OrderOk
PROPERTY StepProps
CHECK_DEADLOCK FALSE
