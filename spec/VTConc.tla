------------------------------- MODULE VTConc -------------------------------
(***************************************************************************)
(* Two threads, each running one operation, interleaved instruction by     *)
(* instruction with no synchronisation but the allocator's own.  The rule  *)
(* the user follows is that of every value type: an object one thread's    *)
(* operation changes is not named by the other's; objects that both only   *)
(* read may be shared.  Under that rule no two threads ever touch the same *)
(* slot or owned object at the same time with one of them writing, and the *)
(* outcome is the one of running the operations one after the other, in    *)
(* either order, with or without failures.                                 *)
(***************************************************************************)
EXTENDS VTRule
CONSTANTS Cfgs, Rule, Live     \* Live: the slots in use (one index stays free for objects)

IRead(s) == [I("read") EXCEPT !.s = s]
IPeek(o) == [I("peek") EXCEPT !.t = o]
Prog2(c, S, op) ==
  LET see(s) == <<IRead(s)>> \o (IF S.slot[s].ob = 0 THEN <<>> ELSE <<IPeek(S.slot[s].ob)>>) IN
  CASE op.o = OBS -> see(op.s)
    [] op.o = CMP -> see(op.s) \o see(op.t)
    [] OTHER -> Prog(c, S, op)
Apply2(c, i, S) == IF i.i \in {"read", "peek"} THEN S ELSE Apply(c, i, S)

(* Memory an instruction reads and writes: slots and owned objects (the    *)
(* storage under construction belongs to the thread alone).                *)
Loc(k, n) == <<k, n>>
Writes(i, L) ==
  CASE i.i \in {"init", "link", "relink", "clear", "setal", "kill"} -> {Loc("slot", i.s)}
    [] i.i \in {"steal", "swapob", "swapal"} -> {Loc("slot", i.s), Loc("slot", i.t)}
    [] i.i \in {"assign", "write"} -> {Loc("obj", i.t)} \cup (IF i.src # 0 /\ i.how = HMove THEN {Loc("obj", i.src)} ELSE {})
    [] i.i = "cons" -> (IF i.src # 0 /\ i.how = HMove THEN {Loc("obj", i.src)} ELSE {}) \cup (IF L.n # 0 THEN {Loc("obj", L.n)} ELSE {})
    [] i.i \in {"destroy", "dealloc"} -> IF L.old # 0 THEN {Loc("obj", L.old)} ELSE {}
    [] OTHER -> {}
\* the owners it names may be read at any time
Reads(i, op) ==
  {Loc("slot", s) : s \in Named(op)} \cup
  CASE i.i = "peek" -> {Loc("obj", i.t)}
    [] i.i \in {"cons", "assign"} -> IF i.src # 0 THEN {Loc("obj", i.src)} ELSE {}
    [] OTHER -> {}
Clash(i, L, a, j, M, b) == \/ Writes(i, L) \cap (Reads(j, b) \cup Writes(j, M)) # {}
                           \/ Writes(j, M) \cap Reads(i, a) # {}

VARIABLES c, S, pre, ops, fk, prog, loc
vars == <<c, S, pre, ops, fk, prog, loc>>
\* loc[k]: the thread's own registers; S.n, S.old, ... are loaded from them for each instruction
Loc0 == [n |-> 0, old |-> 0, exc |-> 0, err |-> 0]
Load(T, l) == [T EXCEPT !.n = l.n, !.old = l.old, !.exc = l.exc, !.err = l.err, !.ev = <<>>]
Regs(T) == [n |-> T.n, old |-> T.old, exc |-> T.exc, err |-> T.err]
Shared(T) == [T EXCEPT !.n = 0, !.old = 0, !.exc = 0, !.err = 0, !.ev = <<>>]
\* an exception unwinds the thread's own construction only
Unwind2(cc, k, T, op) == LET U == Unwind(cc, k, T) IN [U EXCEPT !.slot = [s \in Slots |-> IF s = op.s THEN U.slot[s] ELSE T.slot[s]]]

States(cc) ==
  {[S0 EXCEPT !.slot = [s \in Slots |-> IF s \notin Live \/ f[s] = 0 THEN DeadSlot ELSE [st |-> 1, al |-> IF f[s] \in {1, 3} THEN 1 ELSE 2, ob |-> IF f[s] >= 3 THEN s ELSE 0]],
              !.heap = [o \in Objs |-> IF o \in Live /\ f[o] >= 3 THEN [st |-> 2, ty |-> 1, val |-> o, tag |-> TagOf(cc, IF f[o] = 3 THEN 1 ELSE 2)] ELSE FreeObj]] :
     f \in [Live -> 0..4]}
Ops2(cc, T) ==
       {op \in Ops(cc) : op.s \in Live /\ op.t \in Live \cup {0} /\ op.a \in {NoAl, 2} /\ op.f \in {0, 1, 3} /\ op.ty <= 1 /\ Enabled(cc, T, op)}
  \cup {Op(OBS, s, 0, NoAl, 0, 0, 0) : s \in {q \in Live : Alive(T, q)}}
  \cup {Op(CMP, s, t, NoAl, 0, 0, 0) : s \in {q \in Live : Alive(T, q)}, t \in {q \in Live : Alive(T, q)}}
Faults(cc, T, op) == IF op.o \in {OBS, CMP} \/ Noexcept(cc, op) THEN {0} ELSE {0} \cup {k \in 1..3 : HasFault(cc, T, op, k)}

Init == /\ c \in Cfgs /\ pre \in States(c) /\ S = pre
        /\ \E a \in {op \in Ops2(c, pre) : op.s = 1}, b \in Ops2(c, pre) :    \* slots are alike: the first operation is about slot 1
             /\ IF Rule THEN Allowed(a, b) ELSE ~Allowed(a, b)
             /\ ops = <<a, b>>
             /\ prog = <<Prog2(c, pre, a), Prog2(c, pre, b)>>
             /\ \E x \in Faults(c, pre, a), y \in Faults(c, pre, b) : fk = <<x, y>>
        /\ loc = <<Loc0, Loc0>>

Run(k) ==
  /\ prog[k] # <<>>
  /\ LET i == Head(prog[k])
         T == Load(S, loc[k])
         bang == fk[k] # 0 /\ FaultKind(i) = fk[k]
         R == IF bang THEN Unwind2(c, fk[k], T, ops[k]) ELSE Apply2(c, i, T)
     IN /\ S' = Shared(R)
        /\ loc' = [loc EXCEPT ![k] = Regs(R)]
        /\ prog' = [prog EXCEPT ![k] = IF bang THEN <<>> ELSE Tail(@)]
  /\ UNCHANGED <<c, pre, ops, fk>>
Next == Run(1) \/ Run(2)
Spec == Init /\ [][Next]_vars

NoRace == prog[1] # <<>> /\ prog[2] # <<>> => ~Clash(Head(prog[1]), loc[1], ops[1], Head(prog[2]), loc[2], ops[2])
NoErr == loc[1].err = 0 /\ loc[2].err = 0

\* what can be told apart from outside
View(T, s) == IF T.slot[s].st = 0 THEN <<0>> ELSE IF T.slot[s].ob = 0 THEN <<1, T.slot[s].al>> ELSE <<2, T.slot[s].al, ObjOf(T, s).ty, ObjOf(T, s).val, ObjOf(T, s).tag>>
One(T, k) == IF ops[k].o \in {OBS, CMP} THEN Shared(T) ELSE Shared(Exec(c, T, ops[k], fk[k]))
Serial == prog = <<<<>>, <<>>>> =>
  /\ \A s \in Slots : View(S, s) = View(One(One(pre, 1), 2), s) /\ View(S, s) = View(One(One(pre, 2), 1), s)
  /\ UniqueOwner(S) /\ NoLeak(S) /\ ProviderEqual(c, S)
\* an operation stays within what it names
Stays == \A s \in Slots : s \notin Mut(ops[1]) \cup Mut(ops[2]) => SlotSame(pre, S, s)
=============================================================================
