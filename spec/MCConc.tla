------------------------------- MODULE MCConc -------------------------------
EXTENDS VTConc
CONSTANTS Kinds, Poccas, Pocmas
MCVals == {1}
MCTypes == {1}
MCCfgs == {[kind |-> k, pocca |-> a, pocma |-> b, pocs |-> a, ae |-> FALSE, sel |-> FALSE, mv |-> 0] : k \in Kinds, a \in Poccas, b \in Pocmas}
=============================================================================
