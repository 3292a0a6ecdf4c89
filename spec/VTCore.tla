------------------------------- MODULE VTCore -------------------------------
(***************************************************************************)
(* The core model of xyz::indirect / xyz::polymorphic: a few owner slots,  *)
(* a heap of owned objects, allocators with identity (uid) and equality    *)
(* (tag), and every public operation written as a PROGRAM of small         *)
(* instructions that follow the code one effect at a time.  Apply gives    *)
(* the meaning of one instruction; it is the only place where state        *)
(* changes, and it is shared by                                            *)
(*   VTMicro  (every instruction is a TLC step; faults at every step),     *)
(*   VTGraph  (one operation per step; emits the behaviours replayed into  *)
(*             the C++ code), and                                          *)
(*   VTTrace  (validates histories recorded from the C++ code).            *)
(* The declarative properties Cxx_* below are stated over (before, op,     *)
(* after) without reference to the programs.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NSlots,   \* number of owner slots
          Vals,     \* element values (0 is reserved: the moved-from value)
          Types     \* owned types of a polymorphic (1 is the base type itself)

Slots == 1..NSlots
Objs  == 1..(NSlots + 1)     \* +1: the object under construction
Uids  == 0..2                \* allocator identities; 0 is the default one
MF    == 0                   \* value of a moved-from element
DefVal == 1                  \* value of a default-constructed element

(***************************************************************************)
(* Configurations.  kind: 1 indirect, 2 polymorphic.  pocca/pocma/pocs/ae/ *)
(* sel are the allocator traits (copy, move, swap propagation; always      *)
(* equal; select_on_container_copy_construction returns a default one).    *)
(* mv: what a move of the element does: 0 leaves MF behind, 1 keeps the    *)
(* value (trivial types), 2 there is no move, it copies.                   *)
(***************************************************************************)
TagOf(c, u)   == IF c.ae THEN 0 ELSE IF u = 2 THEN 1 ELSE 0
AlEq(c, a, b) == TagOf(c, a) = TagOf(c, b)
Select(c, a)  == IF c.sel THEN 0 ELSE a

(***************************************************************************)
(* Operations.                                                             *)
(***************************************************************************)
CDEF == 1  CVAL == 2  CCOPY == 3  CMOVE == 4  ACOPY == 5  AMOVE == 6
AVAL == 7  SWAP == 8  KILL  == 9  MUT   == 10
NoAl == -1        \* "no allocator argument": plain constructor
\* how an element is built / assigned
HDef == 1  HArg == 2  HCopy == 3  HMove == 4  HList == 5  HNonConst == 6
\* forms of a value argument: 1 in-place args, 2 const lvalue, 3 rvalue,
\* 4 initializer list, 5 non-const lvalue
\* (for AVAL: 1 means a value of another type)
HowOf(c, f) == CASE f = 1 -> HArg [] f = 2 -> HCopy [] f = 3 -> (IF c.mv = 2 THEN HCopy ELSE HMove)
                 [] f = 4 -> HList [] f = 5 -> HNonConst

Op(o, s, t, a, ty, v, f) == [o |-> o, s |-> s, t |-> t, a |-> a, ty |-> ty, v |-> v, f |-> f]

(***************************************************************************)
(* State.  slot st: 0 dead, 1 alive, 2 under construction; ob: 0 valueless *)
(* heap st: 0 free, 1 raw storage, 2 live object.  n / old are the running *)
(* operation's local variables; ev its events; err a broken memory rule.   *)
(***************************************************************************)
DeadSlot == [st |-> 0, al |-> 0, ob |-> 0]
FreeObj  == [st |-> 0, ty |-> 0, val |-> 0, tag |-> 0]
S0 == [slot |-> [s \in Slots |-> DeadSlot],
       heap |-> [o \in Objs |-> FreeObj],
       n |-> 0, old |-> 0, ev |-> <<>>, exc |-> 0, err |-> 0]

Alive(S, s)   == S.slot[s].st = 1
Engaged(S, s) == Alive(S, s) /\ S.slot[s].ob # 0
Valueless(S, s) == Alive(S, s) /\ S.slot[s].ob = 0
ObjOf(S, s)   == S.heap[S.slot[s].ob]
FreeId(S)     == CHOOSE o \in Objs : S.heap[o].st = 0 /\ \A q \in Objs : S.heap[q].st = 0 => o <= q

(***************************************************************************)
(* Instructions.                                                           *)
(***************************************************************************)
I(i)             == [i |-> i, s |-> 0, t |-> 0, x |-> 0, how |-> 0, src |-> 0, ty |-> 0, v |-> 0]
IAlloc(al)       == [I("alloc") EXCEPT !.x = al]
ICons(how, src, ty, v) == [I("cons") EXCEPT !.how = how, !.src = src, !.ty = ty, !.v = v]
IInit(s, al)     == [I("init") EXCEPT !.s = s, !.x = al]
ILink(s)         == [I("link") EXCEPT !.s = s]            \* finish construction; adopt n
IRelink(s)       == [I("relink") EXCEPT !.s = s]          \* old := own; own := n
ISteal(s, t)     == [I("steal") EXCEPT !.s = s, !.t = t]  \* old := own; own := t's; t valueless
IClear(s)        == [I("clear") EXCEPT !.s = s]           \* old := own; own := none
ISetAl(s, al)    == [I("setal") EXCEPT !.s = s, !.x = al]
IDestroy         == I("destroy")                          \* destroy old, if any
IDealloc(al)     == [I("dealloc") EXCEPT !.x = al]        \* release old's storage, if any
IKill(s)         == [I("kill") EXCEPT !.s = s]
IAssign(dst, how, src, v) == [I("assign") EXCEPT !.t = dst, !.how = how, !.src = src, !.v = v]
ISwapOb(s, t)    == [I("swapob") EXCEPT !.s = s, !.t = t]
ISwapAl(s, t)    == [I("swapal") EXCEPT !.s = s, !.t = t]
IWrite(o, v)     == [I("write") EXCEPT !.t = o, !.v = v]  \* user writes through the owner

Faultable(i) == i.i \in {"alloc", "cons", "assign"}
FaultKind(i) == CASE i.i = "alloc" -> 1 [] i.i = "cons" -> 2 [] i.i = "assign" -> 3 [] OTHER -> 0

Ev(k, who, how, src) == <<k, who, how, src>>
EvA == 1  EvC == 2  EvD == 3  EvF == 4  EvG == 5

\* the value read from a source object/external value, and the source afterwards
SrcVal(S, i) == IF i.src = 0 THEN i.v ELSE S.heap[i.src].val
SrcAfter(c, S, i) ==
  IF i.src # 0 /\ i.how = HMove /\ c.mv = 0 THEN [S.heap EXCEPT ![i.src].val = MF] ELSE S.heap

Err(S, code) == IF S.err = 0 THEN [S EXCEPT !.err = code] ELSE S

Apply(c, i, S) ==
  CASE i.i = "alloc" ->
         LET o == FreeId(S) IN
         [S EXCEPT !.n = o, !.heap[o] = [st |-> 1, ty |-> 0, val |-> 0, tag |-> TagOf(c, i.x)],
                   !.ev = Append(@, Ev(EvA, o, TagOf(c, i.x), 0))]
    [] i.i = "cons" ->
         IF S.n = 0 \/ S.heap[S.n].st # 1 THEN Err(S, 1)
         ELSE IF i.src # 0 /\ S.heap[i.src].st # 2 THEN Err(S, 2)
         ELSE LET v == CASE i.how = HDef -> DefVal [] OTHER -> SrcVal(S, i)
                  ty == IF i.src = 0 THEN i.ty ELSE S.heap[i.src].ty
                  h == SrcAfter(c, S, i) IN
              [S EXCEPT !.heap = [h EXCEPT ![S.n] = [@ EXCEPT !.st = 2, !.ty = ty, !.val = v]],
                        !.ev = Append(@, Ev(EvC, S.n, i.how, i.src))]
    [] i.i = "init"   -> [S EXCEPT !.slot[i.s] = [st |-> 2, al |-> i.x, ob |-> 0]]
    [] i.i = "link"   -> [S EXCEPT !.slot[i.s] = [st |-> 1, al |-> @.al, ob |-> S.n], !.n = 0]
    [] i.i = "relink" -> [S EXCEPT !.old = S.slot[i.s].ob, !.slot[i.s].ob = S.n, !.n = 0]
    [] i.i = "steal"  -> [S EXCEPT !.old = S.slot[i.s].ob, !.slot[i.s].ob = S.slot[i.t].ob,
                                   !.slot[i.t].ob = 0, !.slot[i.s].st = 1]
    [] i.i = "clear"  -> [S EXCEPT !.old = S.slot[i.s].ob, !.slot[i.s].ob = 0, !.slot[i.s].st = 1]
    [] i.i = "setal"  -> [S EXCEPT !.slot[i.s].al = i.x]
    [] i.i = "destroy" ->
         IF S.old = 0 THEN S
         ELSE IF S.heap[S.old].st # 2 THEN Err(S, 3)
         ELSE [S EXCEPT !.heap[S.old].st = 1, !.ev = Append(@, Ev(EvD, S.old, 0, 0))]
    [] i.i = "dealloc" ->
         IF S.old = 0 THEN S
         ELSE IF S.heap[S.old].st # 1 THEN Err(S, 4)
         ELSE IF S.heap[S.old].tag # TagOf(c, i.x) THEN Err(S, 5)
         ELSE [S EXCEPT !.heap[S.old] = FreeObj, !.old = 0,
                        !.ev = Append(@, Ev(EvF, S.old, TagOf(c, i.x), 0))]
    [] i.i = "kill"   -> [S EXCEPT !.slot[i.s] = DeadSlot]
    [] i.i = "assign" ->
         IF S.heap[i.t].st # 2 \/ (i.src # 0 /\ S.heap[i.src].st # 2) THEN Err(S, 6)
         ELSE LET v == SrcVal(S, i)
                  h == SrcAfter(c, S, i) IN
              [S EXCEPT !.heap = [h EXCEPT ![i.t].val = v],
                        !.ev = Append(@, Ev(EvG, i.t, i.how, i.src))]
    [] i.i = "write"  -> [S EXCEPT !.heap[i.t].val = i.v]
    [] i.i = "swapob" -> [S EXCEPT !.slot[i.s].ob = S.slot[i.t].ob, !.slot[i.t].ob = S.slot[i.s].ob]
    [] i.i = "swapal" -> [S EXCEPT !.slot[i.s].al = S.slot[i.t].al, !.slot[i.t].al = S.slot[i.s].al]

(* An exception leaves the operation: storage already obtained goes back,  *)
(* a constructor that throws leaves no object.                             *)
Unwind(c, kind, S) ==
  LET raw == S.n # 0 /\ S.heap[S.n].st = 1 IN
  [S EXCEPT !.exc = kind, !.n = 0,
            !.heap = IF raw THEN [@ EXCEPT ![S.n] = FreeObj] ELSE @,
            !.ev = IF raw THEN Append(@, Ev(EvF, S.n, S.heap[S.n].tag, 0)) ELSE @,
            !.slot = [s \in Slots |-> IF S.slot[s].st = 2 THEN DeadSlot ELSE S.slot[s]]]

(***************************************************************************)
(* The operations as programs (this follows the code).                     *)
(***************************************************************************)
HMv(c) == IF c.mv = 2 THEN HCopy ELSE HMove
KillOld(al) == <<IDestroy, IDealloc(al)>>

ConsFrom(s, al, how, src, ty, v) ==
  <<IInit(s, al), IAlloc(al), ICons(how, src, ty, v), ILink(s)>>
InitValueless(s, al) == <<IInit(s, al), IClear(s)>>

Prog(c, S, op) ==
  LET s == op.s  t == op.t
      sl == S.slot[s]  tl == IF t = 0 THEN DeadSlot ELSE S.slot[t]
      Maybe(b, q) == IF b THEN q ELSE <<>>
  IN
  CASE op.o = CDEF  -> ConsFrom(s, IF op.a = NoAl THEN 0 ELSE op.a, HDef, 0, 1, DefVal)
    [] op.o = CVAL  -> ConsFrom(s, IF op.a = NoAl THEN 0 ELSE op.a, HowOf(c, op.f), 0, op.ty, op.v)
    [] op.o = CCOPY -> LET al == IF op.a = NoAl THEN Select(c, tl.al) ELSE op.a IN
                       IF tl.ob = 0 THEN InitValueless(s, al)
                       ELSE ConsFrom(s, al, HCopy, tl.ob, 0, 0)
    [] op.o = CMOVE -> LET al == IF op.a = NoAl THEN tl.al ELSE op.a IN
                       IF AlEq(c, al, tl.al) THEN <<IInit(s, al), ISteal(s, t)>>
                       ELSE IF tl.ob = 0 THEN InitValueless(s, al)
                       ELSE ConsFrom(s, al, HMv(c), tl.ob, 0, 0)
    [] op.o = ACOPY -> IF s = t THEN <<>>
                       ELSE IF tl.ob = 0 THEN
                         <<IClear(s)>> \o Maybe(c.pocca, <<ISetAl(s, tl.al)>>) \o KillOld(sl.al)
                       ELSE IF c.kind = 1 /\ sl.ob # 0 /\ AlEq(c, sl.al, tl.al) THEN
                         <<IAssign(sl.ob, HCopy, tl.ob, 0)>> \o Maybe(c.pocca, <<ISetAl(s, tl.al)>>)
                       ELSE LET al == IF c.pocca THEN tl.al ELSE sl.al IN
                         <<IAlloc(al), ICons(HCopy, tl.ob, 0, 0), IRelink(s)>>
                         \o Maybe(c.pocca, <<ISetAl(s, tl.al)>>) \o KillOld(sl.al)
    [] op.o = AMOVE -> IF s = t THEN <<>>
                       ELSE IF tl.ob = 0 THEN
                         <<IClear(s)>> \o Maybe(c.pocma, <<ISetAl(s, tl.al)>>) \o KillOld(sl.al)
                       ELSE IF AlEq(c, sl.al, tl.al) THEN
                         <<ISteal(s, t)>> \o Maybe(c.pocma, <<ISetAl(s, tl.al)>>) \o KillOld(sl.al)
                       ELSE LET al == IF c.pocma THEN tl.al ELSE sl.al IN
                         <<IAlloc(al), ICons(HMv(c), tl.ob, 0, 0), IRelink(s)>>
                         \o Maybe(c.pocma, <<ISetAl(s, tl.al)>>) \o KillOld(sl.al)
    [] op.o = AVAL  -> IF sl.ob # 0 THEN <<IAssign(sl.ob, HowOf(c, op.f), 0, op.v)>>
                       ELSE <<IAlloc(sl.al), ICons(HowOf(c, op.f), 0, 1, op.v), IRelink(s)>>
    [] op.o = SWAP  -> IF s = t THEN <<>>
                       ELSE Maybe(c.pocs, <<ISwapAl(s, t)>>) \o <<ISwapOb(s, t)>>
    [] op.o = KILL  -> <<IClear(s)>> \o KillOld(sl.al) \o <<IKill(s)>>
    [] op.o = MUT   -> <<IWrite(sl.ob, op.v)>>

\* Preconditions the user must respect.
Enabled(c, S, op) ==
  CASE op.o \in {CDEF, CVAL}   -> S.slot[op.s].st = 0 /\ (op.f = 4 => c.kind \in {1, 2})
    [] op.o \in {CCOPY, CMOVE} -> S.slot[op.s].st = 0 /\ Alive(S, op.t)
    [] op.o \in {ACOPY, AMOVE} -> Alive(S, op.s) /\ Alive(S, op.t)
    [] op.o = AVAL             -> c.kind = 1 /\ Alive(S, op.s)
    [] op.o = SWAP             -> Alive(S, op.s) /\ Alive(S, op.t)
                                  /\ (c.pocs \/ AlEq(c, S.slot[op.s].al, S.slot[op.t].al))
    [] op.o = KILL             -> Alive(S, op.s)
    [] op.o = MUT              -> Engaged(S, op.s)

\* Declared noexcept: a fault inside is std::terminate, not an exception.
Noexcept(c, op) ==
  CASE op.o = CMOVE -> c.ae \/ (c.kind = 2 /\ op.a = NoAl)
    [] op.o = AMOVE -> c.ae \/ c.pocma
    [] op.o = SWAP  -> c.ae \/ c.pocs
    [] op.o = KILL  -> TRUE
    [] OTHER        -> FALSE

Begin(S) == [S EXCEPT !.ev = <<>>, !.exc = 0, !.n = 0, !.old = 0]

RECURSIVE RunFrom(_, _, _, _)
RunFrom(c, prog, k, S) ==
  IF prog = <<>> \/ S.err # 0 THEN S
  ELSE LET i == Head(prog) IN
       IF k # 0 /\ FaultKind(i) = k THEN Unwind(c, k, S)
       ELSE RunFrom(c, Tail(prog), k, Apply(c, i, S))
\* one whole operation, failing at its (only) instruction of fault kind k (0: no fault)
Exec(c, S, op, k) == RunFrom(c, Prog(c, S, op), k, Begin(S))
HasFault(c, S, op, k) == \E j \in 1..Len(Prog(c, S, op)) : FaultKind(Prog(c, S, op)[j]) = k

(***************************************************************************)
(* Properties (declarative; Before P, operation op, After Q).              *)
(***************************************************************************)
UniqueOwner(S) == \A s, t \in Slots : s # t /\ S.slot[s].ob # 0 => S.slot[s].ob # S.slot[t].ob
Owned(S)  == {S.slot[s].ob : s \in {q \in Slots : S.slot[q].st = 1}} \ {0}
\* C03 at rest: exactly the owned objects are live, nothing else is allocated
NoLeak(S) == \A o \in Objs : IF o \in Owned(S) THEN S.heap[o].st = 2 ELSE S.heap[o].st = 0
\* C04 at rest: the storage came from an allocator equal to the owner's
ProviderEqual(c, S) == \A s \in Slots : Engaged(S, s) => ObjOf(S, s).tag = TagOf(c, S.slot[s].al)
SlotSame(P, Q, s) == Q.slot[s] = P.slot[s] /\ (Engaged(P, s) => ObjOf(Q, s) = ObjOf(P, s))
Same(P, Q) == \A s \in Slots : SlotSame(P, Q, s)
Frame(P, Q, touched) == \A s \in Slots \ touched : SlotSame(P, Q, s)
EvCount(Q, k) == Cardinality({j \in 1..Len(Q.ev) : Q.ev[j][1] = k})
NoElemOps(Q) == EvCount(Q, EvA) = 0 /\ EvCount(Q, EvC) = 0 /\ EvCount(Q, EvG) = 0
Quiet(Q) == Q.ev = <<>>

\* the allocator an operation must leave in its target
TargetAl(c, P, op) ==
  CASE op.o \in {CDEF, CVAL} -> IF op.a = NoAl THEN 0 ELSE op.a
    [] op.o = CCOPY -> IF op.a = NoAl THEN Select(c, P.slot[op.t].al) ELSE op.a
    [] op.o = CMOVE -> IF op.a = NoAl THEN P.slot[op.t].al ELSE op.a
    [] op.o = ACOPY -> IF c.pocca THEN P.slot[op.t].al ELSE P.slot[op.s].al
    [] op.o = AMOVE -> IF c.pocma THEN P.slot[op.t].al ELSE P.slot[op.s].al
    [] op.o = SWAP  -> IF c.pocs THEN P.slot[op.t].al ELSE P.slot[op.s].al
    [] op.o \in {AVAL, MUT} -> P.slot[op.s].al
    [] op.o = KILL  -> 0

\* are source and *resulting construction site* allocators equal?
SameAlloc(c, P, op) ==
  IF op.o = CMOVE THEN AlEq(c, TargetAl(c, P, op), P.slot[op.t].al)
  ELSE AlEq(c, P.slot[op.s].al, P.slot[op.t].al)

C01_Copy(c, P, op, Q) ==
  (op.o \in {CCOPY, ACOPY} /\ op.s # op.t /\ Q.exc = 0) =>
    /\ SlotSame(P, Q, op.t)
    /\ Engaged(P, op.t) =>
         /\ Engaged(Q, op.s)
         /\ ObjOf(Q, op.s).val = ObjOf(P, op.t).val
         /\ Q.slot[op.s].ob # Q.slot[op.t].ob
         /\ EvCount(Q, EvC) + EvCount(Q, EvG) = 1
         /\ \E j \in 1..Len(Q.ev) : Q.ev[j][1] \in {EvC, EvG} /\ Q.ev[j][3] = HCopy
                                    /\ Q.ev[j][4] = P.slot[op.t].ob
C02_Type(c, P, op, Q) ==
  (c.kind = 2 /\ Q.exc = 0) =>
    /\ op.o = CVAL => ObjOf(Q, op.s).ty = op.ty
    /\ op.o = CDEF => ObjOf(Q, op.s).ty = 1
    /\ op.o \in {CCOPY, CMOVE, ACOPY, AMOVE} /\ op.s # op.t /\ Engaged(P, op.t) =>
         ObjOf(Q, op.s).ty = ObjOf(P, op.t).ty
C05_Alloc(c, P, op, Q) ==
  IF Q.exc # 0 THEN \A s \in Slots : Q.slot[s].al = P.slot[s].al
  ELSE /\ (op.s # op.t \/ op.o = KILL) => Q.slot[op.s].al = TargetAl(c, P, op)
       /\ op.o = SWAP => Q.slot[op.t].al = (IF c.pocs THEN P.slot[op.s].al ELSE P.slot[op.t].al)
       /\ \A s \in Slots \ {op.s} : op.o # SWAP => Q.slot[s].al = P.slot[s].al
IsMove(op) == op.o \in {CMOVE, AMOVE} /\ op.s # op.t
C06_MoveEq(c, P, op, Q) ==
  (IsMove(op) /\ SameAlloc(c, P, op)) =>
    /\ Q.exc = 0 /\ NoElemOps(Q)
    /\ Q.slot[op.s].ob = P.slot[op.t].ob /\ Valueless(Q, op.t)
    /\ Engaged(P, op.t) => ObjOf(Q, op.s) = ObjOf(P, op.t)
C07_MoveNe(c, P, op, Q) ==
  (IsMove(op) /\ ~SameAlloc(c, P, op) /\ Q.exc = 0) =>
    /\ Q.slot[op.t] = P.slot[op.t]
    /\ Engaged(P, op.t) =>
         /\ ObjOf(Q, op.s).val = ObjOf(P, op.t).val
         /\ ObjOf(Q, op.s).tag = TagOf(c, TargetAl(c, P, op))
         /\ Q.slot[op.s].ob # P.slot[op.t].ob
         /\ EvCount(Q, EvC) = 1 /\ EvCount(Q, EvA) = 1 /\ EvCount(Q, EvG) = 0
         /\ ObjOf(Q, op.t).val = IF c.mv = 0 THEN MF ELSE ObjOf(P, op.t).val
    /\ Valueless(P, op.t) => Valueless(Q, op.s) /\ NoElemOps(Q)
C08_Valueless(c, P, op, Q) ==
  \* copying or moving from a valueless source makes the target valueless and builds nothing
  /\ (op.o \in {CCOPY, CMOVE, ACOPY, AMOVE} /\ op.s # op.t /\ Valueless(P, op.t)) =>
        Q.exc = 0 /\ Valueless(Q, op.s) /\ NoElemOps(Q)
  /\ \A s \in Slots :
    (Valueless(Q, s) /\ ~Valueless(P, s)) =>
       /\ Q.exc = 0
       /\ \/ s = op.t /\ IsMove(op)
          \/ s = op.s /\ op.o \in {CCOPY, CMOVE, ACOPY, AMOVE} /\ Valueless(P, op.t)
          \/ op.o = SWAP /\ s \in {op.s, op.t} /\ (Valueless(P, op.s) \/ Valueless(P, op.t))
C09_Strong(c, P, op, Q) ==
  Q.exc # 0 => /\ Same(P, Q)
               /\ EvCount(Q, EvA) = EvCount(Q, EvF) /\ EvCount(Q, EvC) = EvCount(Q, EvD)
C10_Self(c, P, op, Q) == (op.t # 0 /\ op.s = op.t) => Same(P, Q) /\ Quiet(Q) /\ Q.exc = 0
C11_Swap(c, P, op, Q) ==
  (op.o = SWAP) => /\ Quiet(Q) /\ Q.exc = 0 /\ Q.heap = P.heap
                   /\ Q.slot[op.s].ob = P.slot[op.t].ob /\ Q.slot[op.t].ob = P.slot[op.s].ob
C12_Reuse(c, P, op, Q) ==
  (c.kind = 1 /\ Q.exc = 0) =>
    /\ (op.o = AVAL /\ Engaged(P, op.s)) \/
       (op.o = ACOPY /\ op.s # op.t /\ Engaged(P, op.s) /\ Engaged(P, op.t) /\ SameAlloc(c, P, op))
         => Q.slot[op.s].ob = P.slot[op.s].ob /\ Len(Q.ev) = 1 /\ Q.ev[1][1] = EvG
    /\ (op.o = AVAL /\ Valueless(P, op.s)) \/
       (op.o = ACOPY /\ Engaged(P, op.t) /\ op.s # op.t /\ (Valueless(P, op.s) \/ ~SameAlloc(c, P, op)))
         => EvCount(Q, EvA) = 1 /\ EvCount(Q, EvC) = 1 /\ EvCount(Q, EvG) = 0
    /\ op.o = AVAL => ObjOf(Q, op.s).val = op.v
C16_Cons(c, P, op, Q) ==
  (op.o \in {CDEF, CVAL} /\ Q.exc = 0) =>
    /\ Engaged(Q, op.s) /\ EvCount(Q, EvA) = 1 /\ EvCount(Q, EvC) = 1 /\ Len(Q.ev) = 2
    /\ ObjOf(Q, op.s).val = IF op.o = CDEF THEN DefVal ELSE op.v
\* only the named slots change
FrameOk(c, P, op, Q) == Frame(P, Q, {op.s, op.t})
\* old object outlives the construction of its replacement
OldDiesLast(c, P, op, Q) ==
  \A j, k \in 1..Len(Q.ev) : Q.ev[j][1] = EvD /\ Q.ev[k][1] = EvC => k < j

\* C03: what is obtained and built is released and destroyed, except for what the owners gained or lost
C03_Ledger(P, Q) ==
  LET gain == Cardinality(Owned(Q)) - Cardinality(Owned(P)) IN
  /\ EvCount(Q, EvA) - EvCount(Q, EvF) = gain
  /\ EvCount(Q, EvC) - EvCount(Q, EvD) = gain
\* C04: storage goes back through an allocator equal to the one it came from
C04_Release(P, Q) ==
  \A j \in 1..Len(Q.ev) : Q.ev[j][1] = EvF =>
    LET o == Q.ev[j][2] IN
    \/ o \in Owned(P) /\ Q.ev[j][3] = P.heap[o].tag
    \/ \E m \in 1..(j - 1) : Q.ev[m][1] = EvA /\ Q.ev[m][2] = o /\ Q.ev[m][3] = Q.ev[j][3]

StepOk(c, P, op, Q) ==
  /\ Q.err = 0 /\ C03_Ledger(P, Q) /\ C04_Release(P, Q)
  /\ C01_Copy(c, P, op, Q) /\ C02_Type(c, P, op, Q) /\ C05_Alloc(c, P, op, Q)
  /\ C06_MoveEq(c, P, op, Q) /\ C07_MoveNe(c, P, op, Q) /\ C08_Valueless(c, P, op, Q)
  /\ C09_Strong(c, P, op, Q) /\ C10_Self(c, P, op, Q) /\ C11_Swap(c, P, op, Q)
  /\ C12_Reuse(c, P, op, Q) /\ C16_Cons(c, P, op, Q)
  /\ FrameOk(c, P, op, Q) /\ OldDiesLast(c, P, op, Q)
RestOk(c, S) == UniqueOwner(S) /\ NoLeak(S) /\ ProviderEqual(c, S) /\ S.err = 0

(***************************************************************************)
(* The operations offered to TLC in a state.                               *)
(***************************************************************************)
TysOf(c) == IF c.kind = 1 THEN {1} ELSE Types
MaxVal == CHOOSE v \in Vals : \A w \in Vals : w <= v
Ops(c) ==
       {Op(CDEF, s, 0, a, 1, DefVal, 0) : s \in Slots, a \in {NoAl} \cup Uids}
  \cup {Op(CVAL, s, 0, a, ty, v, 1) : s \in Slots, a \in {NoAl, 1, 2}, ty \in TysOf(c), v \in Vals}
  \cup {Op(CVAL, s, 0, a, ty, MaxVal, f) : s \in Slots, a \in {NoAl, 2}, ty \in TysOf(c), f \in 2..5}
  \cup {Op(o, s, t, a, 0, 0, 0) : o \in {CCOPY, CMOVE}, s \in Slots, t \in Slots, a \in {NoAl} \cup Uids}
  \cup {Op(o, s, t, NoAl, 0, 0, 0) : o \in {ACOPY, AMOVE, SWAP}, s \in Slots, t \in Slots}
  \cup (IF c.kind = 1 THEN {Op(AVAL, s, 0, NoAl, 1, v, f) : s \in Slots, v \in Vals, f \in {1, 2, 3, 5}} ELSE {})
  \cup {Op(KILL, s, 0, NoAl, 0, 0, 0) : s \in Slots}
  \cup {Op(MUT, s, 0, NoAl, 0, v, 0) : s \in Slots, v \in Vals}
Possible(c, S) == {op \in Ops(c) : Enabled(c, S, op)}
=============================================================================
