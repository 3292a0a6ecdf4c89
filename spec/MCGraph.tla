------------------------------ MODULE MCGraph ------------------------------
EXTENDS VTGraph
CONSTANTS Kinds, Poccas, Pocmas, Pocss, Aes, Sels, Mvs
MCCfgs == [kind : Kinds, pocca : Poccas, pocma : Pocmas, pocs : Pocss, ae : Aes, sel : Sels, mv : Mvs]
MCVals == {1, 2}
MCTypes == {1, 2}
MCTypes3 == {1, 2, 3}
=============================================================================
