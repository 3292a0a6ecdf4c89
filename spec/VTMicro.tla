------------------------------ MODULE VTMicro ------------------------------
(* Small-step model: every instruction of every operation is one step and  *)
(* a fault may strike at every faultable instruction.                      *)
EXTENDS VTCore
CONSTANT Cfgs
VARIABLES c, S, prog, op, pre, phase
vars == <<c, S, prog, op, pre, phase>>
\* phase: 0 at rest, 1 running, 2 an exception is unwinding, 3 terminated

NoOp == Op(0, 1, 0, NoAl, 0, 0, 0)
Init == /\ c \in Cfgs /\ S = S0 /\ prog = <<>> /\ op = NoOp /\ pre = S0 /\ phase = 0

Call == /\ phase = 0
        /\ \E o \in Possible(c, S) :
             /\ op' = o /\ pre' = S
             /\ prog' = Prog(c, S, o) /\ S' = Begin(S) /\ phase' = 1
        /\ UNCHANGED c
Instr == /\ phase = 1 /\ prog # <<>>
         /\ S' = Apply(c, Head(prog), S) /\ prog' = Tail(prog)
         /\ UNCHANGED <<c, op, pre, phase>>
Throw == /\ phase = 1 /\ prog # <<>> /\ Faultable(Head(prog))
         /\ IF Noexcept(c, op) THEN phase' = 3 /\ UNCHANGED S
            ELSE /\ S' = [S EXCEPT !.exc = FaultKind(Head(prog))]
                 /\ phase' = 2
         /\ UNCHANGED <<c, op, pre, prog>>
Catch == /\ phase = 2                     \* the handlers on the way out
         /\ S' = Unwind(c, S.exc, S) /\ prog' = <<>> /\ phase' = 1
         /\ UNCHANGED <<c, op, pre>>
\* on return the locals and the event log of the call are forgotten
Return == /\ phase = 1 /\ prog = <<>>
          /\ S' = Begin(S) /\ pre' = S0 /\ op' = NoOp /\ phase' = 0
          /\ UNCHANGED <<c, prog>>
Next == Call \/ Instr \/ Throw \/ Catch \/ Return
Fairness == WF_vars(Instr) /\ WF_vars(Catch) /\ WF_vars(Return)
Spec == Init /\ [][Next]_vars /\ Fairness

\* every call returns (or the documented termination happens)
Returns == (phase \in {1, 2}) ~> (phase \in {0, 3})
NoErr == S.err = 0
Unique == UniqueOwner(S)
AtReturn == phase = 1 /\ prog = <<>>
ReturnOk == AtReturn => StepOk(c, pre, op, S)
Rest == phase = 0 => RestOk(c, S)
\* mid-operation: an owner never refers to dead storage, and its object's storage
\* is only ever in the hands of an equal allocator once the operation is over
NeverDangling == \A s \in Slots : S.slot[s].st = 1 /\ S.slot[s].ob # 0 => S.heap[S.slot[s].ob].st = 2
\* a no-throw promise is broken only by move assignment when allocators differ (KNOWN FINDING C22)
OnlyKnownTermination ==
  phase = 3 => /\ op.o = AMOVE /\ c.pocma /\ ~c.ae
               /\ ~AlEq(c, S.slot[op.s].al, S.slot[op.t].al) /\ Engaged(S, op.t)
=============================================================================
