SPECIFICATION Spec
CONSTANTS
 Kind = 2
 Pocca = TRUE
 Pocma = TRUE
 Pocs = TRUE
 Ae = FALSE
 Sel = FALSE
 NMax = 3
 MaxFault = 2
 Depth = 1
 Emit = TRUE
VIEW View
ACTION_CONSTRAINT Edges
PROPERTY StepProps
CHECK_DEADLOCK FALSE
