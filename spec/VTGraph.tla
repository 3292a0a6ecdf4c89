------------------------------ MODULE VTGraph ------------------------------
(* One operation per step.  Every transition is printed; the C++ replayer  *)
(* walks the printed graph through the real code.  The log variable `last` *)
(* and the heap naming are hidden by the VIEW, so the states are exactly   *)
(* what a user can observe.                                                *)
EXTENDS VTCore
CONSTANTS Cfgs, Emit
VARIABLES c, S, last
vars == <<c, S, last>>

Canon(s) == IF S.slot[s].st = 0 THEN <<0, 0, 0, 0>>
            ELSE IF S.slot[s].ob = 0 THEN <<1, S.slot[s].al, 0, 0>>
            ELSE <<2, S.slot[s].al, ObjOf(S, s).ty, ObjOf(S, s).val>>
CanonAll == [s \in Slots |-> Canon(s)]
View == <<c, CanonAll>>

NoOp == Op(0, 1, 0, NoAl, 0, 0, 0)
Init == c \in Cfgs /\ S = S0 /\ last = [op |-> NoOp, k |-> 0, pre |-> S0]

\* faults in calls that are declared noexcept end the program: not an edge here
Step(op, k) ==
  /\ k # 0 => HasFault(c, S, op, k) /\ ~Noexcept(c, op)
  /\ LET Q == Exec(c, S, op, k) IN
     /\ S' = Q
     /\ last' = [op |-> op, k |-> k, pre |-> S]
  /\ UNCHANGED c
Next == \E op \in Possible(c, S) : \E k \in 0..3 : Step(op, k)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Printing.  Objects are named by the slot that owned them before the     *)
(* call, 9 is the new object, 0 an external value.                         *)
(***************************************************************************)
Name(P, o) == IF o = 0 THEN 0
              ELSE IF \E s \in Slots : P.slot[s].st = 1 /\ P.slot[s].ob = o
                   THEN CHOOSE s \in Slots : P.slot[s].st = 1 /\ P.slot[s].ob = o ELSE 9
EvOut(P, e) == <<e[1], Name(P, e[2]), e[3], Name(P, e[4])>>
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Bit(b) == IF b THEN 1 ELSE 0
CfgOut == <<c.kind, Bit(c.pocca), Bit(c.pocma), Bit(c.pocs), Bit(c.ae), Bit(c.sel), c.mv>>
SlotsOut(T) == Flat([s \in Slots |->
   IF T.slot[s].st = 0 THEN <<0, 0, 0, 0>>
   ELSE IF T.slot[s].ob = 0 THEN <<1, T.slot[s].al, 0, 0>>
   ELSE <<2, T.slot[s].al, T.heap[T.slot[s].ob].ty, T.heap[T.slot[s].ob].val>>])
OriginOut(P, Q) == [s \in Slots |-> IF Q.slot[s].st = 1 /\ Q.slot[s].ob # 0 THEN Name(P, Q.slot[s].ob) ELSE 0]
EdgeOut(op, k, P, Q) ==
  <<77001>> \o CfgOut \o <<NSlots>> \o SlotsOut(P)
  \o <<op.o, op.s, op.t, op.a, op.ty, op.v, op.f, k, Q.exc>>
  \o SlotsOut(Q) \o OriginOut(P, Q)
  \o <<Len(Q.ev)>> \o Flat([j \in 1..Len(Q.ev) |-> EvOut(P, Q.ev[j])])
\* ACTION_CONSTRAINT (evaluated once for every transition TLC generates)
Edges == IF Emit THEN PrintT(ToString(EdgeOut(last'.op, last'.k, S, S'))) ELSE TRUE
\* every step satisfies every property
StepProps == [][StepOk(c, S, last'.op, S') /\ RestOk(c, S')]_vars

\* documented terminations (KNOWN FINDING under C22): noexcept calls with a fault inside
TermOut(op, k) == <<77002>> \o CfgOut \o <<NSlots>> \o SlotsOut(S)
  \o <<op.o, op.s, op.t, op.a, op.ty, op.v, op.f, k>>
Terms == \A op \in Possible(c, S) : \A k \in 1..3 :
           (HasFault(c, S, op, k) /\ Noexcept(c, op)) => (Emit => PrintT(ToString(TermOut(op, k))))

(***************************************************************************)
(* Comparison and hashing of indirects (C13): 1 less, 2 equal, 3 greater.  *)
(* A valueless owner is below everything and equal to valueless only.      *)
(***************************************************************************)
RelNum(x, y) == IF x < y THEN 1 ELSE IF x = y THEN 2 ELSE 3
Rel(s, t) ==
  IF ~Alive(S, s) \/ ~Alive(S, t) THEN 0
  ELSE CASE Valueless(S, s) /\ Valueless(S, t) -> 2
         [] Valueless(S, s) /\ Engaged(S, t)   -> 1
         [] Engaged(S, s) /\ Valueless(S, t)   -> 3
         [] OTHER -> RelNum(ObjOf(S, s).val, ObjOf(S, t).val)
RelVal(s, v) == IF ~Alive(S, s) THEN 0 ELSE IF Valueless(S, s) THEN 1 ELSE RelNum(ObjOf(S, s).val, v)
MaxV == MaxVal
StateOut ==
  <<77003>> \o CfgOut \o <<NSlots>> \o SlotsOut(S)
  \o Flat([s \in Slots |-> [t \in Slots |-> Rel(s, t)]])
  \o <<MaxV + 1>> \o Flat([s \in Slots |-> [v \in 1..(MaxV + 1) |-> RelVal(s, v - 1)]])
States == (Emit /\ c.kind = 1) => PrintT(ToString(StateOut))
\* the order is total and consistent
OrderOk == \A s, t \in Slots : Rel(s, t) # 0 =>
             /\ Rel(t, s) = 4 - Rel(s, t)
             /\ \A u \in Slots : (Rel(s, t) = 1 /\ Rel(t, u) \in {1, 2}) => Rel(s, u) = 1
=============================================================================
