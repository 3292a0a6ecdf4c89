------------------------------- MODULE VTRule -------------------------------
(* The rule for using owners from several threads at once, shared by        *)
(* VTConc (the rule suffices) and VTFoot (the real code stays within it).   *)
EXTENDS VTCore
\* observers: read one owner, compare two, compare one with a value
OBS == 11  CMP == 12  CMPV == 13
(* What an operation may change, and what it names.                        *)
Named(op) == {op.s, op.t} \ {0}
Mut(op) == CASE op.o \in {OBS, CMP, CMPV} -> {}
             [] op.o \in {CMOVE, AMOVE, SWAP} -> {op.s, op.t}
             [] OTHER -> {op.s}
Allowed(a, b) == Mut(a) \cap Named(b) = {} /\ Mut(b) \cap Named(a) = {}

=============================================================================
