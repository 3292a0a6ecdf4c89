------------------------------ MODULE VTTrace ------------------------------
(***************************************************************************)
(* Validates histories recorded from the real code (harness/trace.cc)      *)
(* against VTCore: many owners, many values, long random histories with    *)
(* failures.  A record holds the call, what the caller saw (exception),    *)
(* every slot afterwards <<state, allocator, type, value, whose object>>   *)
(* and the events <<kind, object, how, source>> of the call.  A step is    *)
(* allowed when the slots are those of Exec and the step satisfies every   *)
(* declarative property of VTCore with the events that really happened.    *)
(***************************************************************************)
EXTENDS VTCore, Json
CONSTANT FactsFile
F == ndJsonDeserialize(FactsFile)
VARIABLES i, bad, c, mask, S
vars == <<i, bad, c, mask, S>>

B(x) == x = 1
CfgOf(v) == [kind |-> v[1], pocca |-> B(v[2]), pocma |-> B(v[3]), pocs |-> B(v[4]), ae |-> B(v[5]), sel |-> B(v[6]), mv |-> v[7]]
OpOf(v) == Op(v[1], v[2], v[3], v[4], v[5], v[6], v[7])

\* the state a record shows; the object of slot s is called s
StateOf(cc, sl) ==
  [S0 EXCEPT !.slot = [s \in Slots |-> [st |-> IF sl[s][1] = 0 THEN 0 ELSE 1, al |-> IF sl[s][1] = 0 THEN 0 ELSE sl[s][2], ob |-> IF sl[s][1] = 2 THEN s ELSE 0]],
             !.heap = [o \in Objs |-> IF o \in Slots /\ sl[o][1] = 2 THEN [st |-> 2, ty |-> sl[o][3], val |-> sl[o][4], tag |-> TagOf(cc, sl[o][2])] ELSE FreeObj]]

\* names in a record: a slot (its object before the call), 9 the new object, 0 a value of the caller
Obj(P, n) == IF n \in Slots THEN P.slot[n].ob ELSE IF n = 9 THEN FreeId(P) ELSE 0
EvOf(P, e) == <<e[1], Obj(P, e[2]), e[3], Obj(P, e[4])>>
Foreign(e) == e[2] = 8 \/ e[4] = 8
NameOf(P, o) == IF o = 0 THEN 0 ELSE IF \E s \in Slots : P.slot[s].ob = o THEN CHOOSE s \in Slots : P.slot[s].ob = o ELSE 9

Cmp(x, y) == IF x < y THEN 1 ELSE IF x = y THEN 2 ELSE 3
Key(sl) == IF sl[1] = 2 THEN sl[4] ELSE -1       \* valueless is below every value
RelOk(r) == \A s, t \in Slots : r.rel[(s - 1) * NSlots + t] = IF r.sl[s][1] = 0 \/ r.sl[t][1] = 0 THEN 0 ELSE Cmp(Key(r.sl[s]), Key(r.sl[t]))

\* what is wrong with a record: property numbers and, from 101, kinds of mismatch
Wrong(r) ==
  LET op == OpOf(r.o)
      Q == Exec(c, S, op, r.exc)
      sees == \A s \in Slots : (r.sl[s][1] = 0) = (Q.slot[s].st = 0)
      Diff(G(_)) == \E s \in Slots : r.sl[s][1] # 0 /\ Q.slot[s].st # 0 /\ G(s)
      both(s) == r.sl[s][1] = 2 /\ Q.slot[s].ob # 0
      \* events this element and allocator cannot show are taken from the model
      R == [Q EXCEPT !.ev = SelectSeq(Q.ev, LAMBDA e : e[1] \notin mask) \o [j \in DOMAIN r.ev |-> EvOf(S, r.ev[j])]]
      N(b, n) == IF b THEN {} ELSE {n}
  IN
  IF ~Enabled(c, S, op) THEN {100}
  ELSE N(r.exc \in 0..3 /\ Q.exc = r.exc /\ Q.err = 0, 101) \cup N(sees, 110)
       \cup N(~Diff(LAMBDA s : r.sl[s][2] # Q.slot[s].al), 102)
       \cup N(~Diff(LAMBDA s : (r.sl[s][1] = 2) # (Q.slot[s].ob # 0)), 103)
       \cup N(~Diff(LAMBDA s : both(s) /\ r.sl[s][3] # ObjOf(Q, s).ty), 104)
       \cup N(~Diff(LAMBDA s : both(s) /\ r.sl[s][4] # ObjOf(Q, s).val), 105)
       \cup N(~Diff(LAMBDA s : both(s) /\ r.sl[s][5] # NameOf(S, Q.slot[s].ob)), 106)
       \cup N(\A j \in DOMAIN r.ev : ~Foreign(r.ev[j]), 107)
       \cup N(r.mm = <<>>, 108)
       \cup N(r.rel = <<>> \/ RelOk(r), 13)
       \cup N(C01_Copy(c, S, op, R), 1) \cup N(C02_Type(c, S, op, R), 2) \cup N(C05_Alloc(c, S, op, R), 5)
       \cup N(C06_MoveEq(c, S, op, R), 6) \cup N(C07_MoveNe(c, S, op, R), 7) \cup N(C08_Valueless(c, S, op, R), 8)
       \cup N(C09_Strong(c, S, op, R), 9) \cup N(C10_Self(c, S, op, R), 10) \cup N(C11_Swap(c, S, op, R), 11)
       \cup N(C12_Reuse(c, S, op, R), 12) \cup N(C16_Cons(c, S, op, R), 16)
       \cup N(C03_Ledger(S, R), 3) \cup N(C04_Release(S, R), 4)
       \cup N(OldDiesLast(c, S, op, R), 21) \cup N(RestOk(c, StateOf(c, r.sl)), 3)

Init == i = 1 /\ bad = 0 /\ c = CfgOf(<<1, 0, 0, 0, 0, 0, 0>>) /\ mask = 1..5 /\ S = S0
Next == /\ i <= Len(F)
        /\ LET r == F[i] IN
           IF r.op = "start" THEN c' = CfgOf(r.cfg) /\ mask' = {r.mask[j] : j \in DOMAIN r.mask} /\ S' = S0 /\ bad' = bad
           ELSE LET w == Wrong(r) IN
                /\ IF w = {} THEN TRUE ELSE PrintT(<<77100, i>>) /\ \A n \in w : PrintT(<<77103, i, n>>)
                /\ bad' = IF w = {} THEN bad ELSE bad + 1
                /\ S' = StateOf(c, r.sl) /\ c' = c /\ mask' = mask
        /\ i' = i + 1
        /\ IF i = Len(F) THEN PrintT(<<77101, i, bad'>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
