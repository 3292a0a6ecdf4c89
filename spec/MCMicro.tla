------------------------------ MODULE MCMicro ------------------------------
EXTENDS VTMicro
CONSTANTS Kinds, Mvs
B == {FALSE, TRUE}
MCCfgs == [kind : Kinds, pocca : B, pocma : B, pocs : B, ae : B, sel : B, mv : Mvs]
\* (liveness) the traits that change what a call does, one value of the others
MCLiveCfgs == [kind : Kinds, pocca : B, pocma : B, pocs : {FALSE}, ae : {FALSE}, sel : {FALSE}, mv : Mvs]
MCVals == {1, 2}
MCTypes == {1, 2}
=============================================================================
