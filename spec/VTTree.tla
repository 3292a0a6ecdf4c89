------------------------------- MODULE VTTree -------------------------------
(***************************************************************************)
(* Recursive structures (C21): nodes whose elements own further nodes      *)
(* through indirect / polymorphic.  Unlike VTCore, the owners live inside  *)
(* the owned objects, so destroying an object destroys the owners in it,   *)
(* and an operation may be applied to an owner and one nested inside the   *)
(* object it owns.  Every read of an owner or node checks that it is still *)
(* alive (err), so an operation written in the wrong order is caught here, *)
(* and every behaviour is printed for replay into the C++ code.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kind, Pocca, Pocma, Pocs, Ae, Sel,  \* the configuration
          NMax,      \* owners in the initial structures
          MaxFault,  \* failures injected up to this allocation / construction
          Depth,     \* operations in a row
          Emit
VARIABLES S, last, depth
vars == <<S, last, depth>>

TagOf(u) == IF Ae THEN 0 ELSE IF u = 2 THEN 1 ELSE 0
AlEq(a, b) == TagOf(a) = TagOf(b)
Select(a) == IF Sel THEN 0 ELSE a
MF == 0
NoAl == -1
Roots == 1..2
Oids == 1..(2 * NMax + 2)
Nids == 1..(2 * NMax + 2)
DeadO == [st |-> 0, al |-> 0, ob |-> 0]
DeadN == [st |-> 0, val |-> 0, kids |-> <<>>, tag |-> 0]
\* fk/fn: the fn-th event of kind fk fails; exc: what is propagating; new: last node made
S0 == [own |-> [o \in Oids |-> DeadO], node |-> [n \in Nids |-> DeadN], root |-> [r \in Roots |-> 0],
       fk |-> 0, fn |-> 0, exc |-> 0, new |-> 0, newo |-> 0, err |-> 0, born |-> {}, died |-> {}]

Err(T, e) == IF T.err = 0 THEN [T EXCEPT !.err = e] ELSE T
FreeO(T) == CHOOSE o \in Oids : T.own[o].st = 0 /\ \A p \in Oids : p < o => T.own[p].st # 0
\* a node id is not reused while an operation runs
FreeN(T) == CHOOSE n \in Nids : T.node[n].st = 0 /\ n \notin T.died /\ \A m \in Nids : m < n => (T.node[m].st # 0 \/ m \in T.died)

(***************************************************************************)
(* Destruction.                                                            *)
(***************************************************************************)
RECURSIVE KillNode(_, _, _), KillOwner(_, _), KillOwners(_, _)
KillNode(T, n, al) ==     \* destroy node n and give its storage back through al
  IF n = 0 THEN T
  ELSE IF T.node[n].st # 2 THEN Err(T, 3)
  ELSE LET U == KillOwners([T EXCEPT !.node[n].st = 1], T.node[n].kids) IN
       IF U.node[n].tag # TagOf(al) THEN Err(U, 5)
       ELSE [U EXCEPT !.node[n] = DeadN, !.died = @ \cup {n}]
KillOwner(T, o) ==
  IF T.own[o].st # 1 THEN Err(T, 7)
  ELSE LET U == KillNode(T, T.own[o].ob, T.own[o].al) IN [U EXCEPT !.own[o] = DeadO]
KillOwners(T, q) == IF q = <<>> THEN T ELSE KillOwners(KillOwner(T, Head(q)), Tail(q))

(***************************************************************************)
(* Construction.  Fail(T, k): does the next event of kind k fail?          *)
(***************************************************************************)
Tick(T, k) == IF T.fk = k /\ T.fn > 0 THEN [T EXCEPT !.fn = @ - 1, !.exc = IF T.fn = 1 THEN k ELSE @] ELSE T
Raw(T, al) ==  \* allocate; new is the raw node
  LET U == Tick(T, 1) IN
  IF U.exc # 0 THEN U
  ELSE LET n == FreeN(U) IN [U EXCEPT !.node[n] = [st |-> 1, val |-> 0, kids |-> <<>>, tag |-> TagOf(al)], !.new = n, !.born = @ \cup {n}]
Drop(T, n) == [T EXCEPT !.node[n] = DeadN, !.born = @ \ {n}]   \* raw storage returned by a handler
NewOwner(T, al, ob) == LET o == FreeO(T) IN [T EXCEPT !.own[o] = [st |-> 1, al |-> al, ob |-> ob], !.newo = o]

RECURSIVE CopyNode(_, _, _), CopyKids(_, _, _), CopyOwner(_, _, _)
CopyOwner(T, o, al) ==   \* newo becomes a copy of owner o
  IF T.own[o].st # 1 THEN Err(T, 2)
  ELSE IF T.own[o].ob = 0 THEN NewOwner(T, al, 0)
  ELSE LET U == CopyNode(T, T.own[o].ob, al) IN IF U.exc # 0 THEN U ELSE NewOwner(U, al, U.new)
CopyKids(T, q, done) ==  \* returns the copies in field kidsq of the result
  IF q = <<>> THEN [t |-> T, k |-> done]
  ELSE LET U == CopyOwner(T, Head(q), Select(T.own[Head(q)].al)) IN
       IF U.exc # 0 THEN [t |-> KillOwners(U, done), k |-> <<>>]
       ELSE CopyKids(U, Tail(q), Append(done, U.newo))
CopyNode(T, src, al) ==
  IF T.node[src].st # 2 THEN Err(T, 2)
  ELSE LET U == Raw(T, al) IN
       IF U.exc # 0 THEN U
       ELSE LET n == U.new
                V == Tick(U, 2) IN
            IF V.exc # 0 THEN Drop(V, n)
            ELSE LET R == CopyKids(V, T.node[src].kids, <<>>) IN
                 IF R.t.exc # 0 THEN Drop(R.t, n)
                 ELSE [R.t EXCEPT !.node[n].st = 2, !.node[n].val = T.node[src].val, !.node[n].kids = R.k, !.new = n]
MoveNode(T, src, al) ==
  IF T.node[src].st # 2 THEN Err(T, 2)
  ELSE LET U == Raw(T, al) IN
       IF U.exc # 0 THEN U
       ELSE LET n == U.new
                V == Tick(U, 2) IN
            IF V.exc # 0 THEN Drop(V, n)
            ELSE [V EXCEPT !.node[n].st = 2, !.node[n].val = V.node[src].val, !.node[n].kids = V.node[src].kids,
                           !.node[src].val = MF, !.node[src].kids = <<>>, !.new = n]
\* the element's own copy assignment (copies first, then replaces its members)
AssignNode(T, dst, src) ==
  IF T.node[dst].st # 2 \/ T.node[src].st # 2 THEN Err(T, 6)
  ELSE LET U == Tick(T, 3) IN
       IF U.exc # 0 THEN U
       ELSE LET R == CopyKids(U, U.node[src].kids, <<>>) IN
            IF R.t.exc # 0 THEN R.t
            ELSE KillOwners([R.t EXCEPT !.node[dst].val = T.node[src].val, !.node[dst].kids = R.k], T.node[dst].kids)

(***************************************************************************)
(* The operations on owners.                                               *)
(***************************************************************************)
ReadOwner(T, o, U) == IF T.own[o].st # 1 THEN Err(T, 8) ELSE U
\* owner o lets go of its node for ob, takes al; then the old node dies through the old allocator
Replace(T, o, ob, al) ==
  LET old == T.own[o].ob  oal == T.own[o].al IN
  KillNode([T EXCEPT !.own[o] = [st |-> 1, al |-> al, ob |-> ob]], old, oal)

CopyAssign(T, p, q) ==
  IF p = q THEN T
  ELSE LET P == T.own[p]  Q == T.own[q]  al == IF Pocca THEN Q.al ELSE P.al IN
       IF Q.ob = 0 THEN Replace(T, p, 0, al)
       ELSE IF Kind = 1 /\ P.ob # 0 /\ AlEq(P.al, Q.al) THEN
         LET U == AssignNode(T, P.ob, Q.ob) IN
         IF U.exc # 0 \/ ~Pocca THEN U ELSE [U EXCEPT !.own[p].al = Q.al]
       ELSE LET U == CopyNode(T, Q.ob, al) IN IF U.exc # 0 THEN U ELSE Replace(U, p, U.new, al)
MoveAssign(T, p, q) ==
  IF p = q THEN T
  ELSE LET P == T.own[p]  Q == T.own[q]  al == IF Pocma THEN Q.al ELSE P.al IN
       IF Q.ob = 0 THEN Replace(T, p, 0, al)
       ELSE IF AlEq(P.al, Q.al) THEN Replace([T EXCEPT !.own[q].ob = 0], p, Q.ob, al)
       ELSE LET U == MoveNode(T, Q.ob, al) IN IF U.exc # 0 THEN U ELSE Replace(U, p, U.new, al)
CopyCons(T, r, q, a) ==
  LET U == CopyOwner(T, q, IF a = NoAl THEN Select(T.own[q].al) ELSE a) IN
  IF U.exc # 0 THEN U ELSE [U EXCEPT !.root[r] = U.newo]
MoveCons(T, r, q, a) ==
  LET al == IF a = NoAl THEN T.own[q].al ELSE a  ob == T.own[q].ob IN
  IF AlEq(al, T.own[q].al) THEN
    LET U == NewOwner([T EXCEPT !.own[q].ob = 0], al, ob) IN [U EXCEPT !.root[r] = U.newo]
  ELSE IF ob = 0 THEN LET U == NewOwner(T, al, 0) IN [U EXCEPT !.root[r] = U.newo]
  ELSE LET U == MoveNode(T, ob, al) IN
       IF U.exc # 0 THEN U ELSE LET V == NewOwner(U, al, U.new) IN [V EXCEPT !.root[r] = V.newo]
Swap(T, p, q) ==
  IF p = q THEN T
  ELSE LET P == T.own[p]  Q == T.own[q] IN
       [T EXCEPT !.own[p] = [st |-> 1, al |-> IF Pocs THEN Q.al ELSE P.al, ob |-> Q.ob],
                 !.own[q] = [st |-> 1, al |-> IF Pocs THEN P.al ELSE Q.al, ob |-> P.ob]]
KillRoot(T, r) == [KillOwner(T, T.root[r]) EXCEPT !.root[r] = 0]

CCOPY == 3  CMOVE == 4  ACOPY == 5  AMOVE == 6  SWAP == 8  KILL == 9
\* p is an owner, except for constructions and KILL, where it is a root slot
Op(o, p, q, a) == [o |-> o, p |-> p, q |-> q, a |-> a]
Begin(T, fk, fn) == [T EXCEPT !.fk = fk, !.fn = fn, !.exc = 0, !.err = 0, !.born = {}, !.died = {}, !.new = 0, !.newo = 0]
Do(T, op) ==
  CASE op.o = CCOPY -> CopyCons(T, op.p, op.q, op.a)
    [] op.o = CMOVE -> MoveCons(T, op.p, op.q, op.a)
    [] op.o = ACOPY -> CopyAssign(T, op.p, op.q)
    [] op.o = AMOVE -> MoveAssign(T, op.p, op.q)
    [] op.o = SWAP  -> Swap(T, op.p, op.q)
    [] op.o = KILL  -> KillRoot(T, op.p)
Noexcept(op) ==
  CASE op.o = CMOVE -> Ae \/ (Kind = 2 /\ op.a = NoAl)
    [] op.o = AMOVE -> Ae \/ Pocma
    [] OTHER -> op.o \in {SWAP, KILL}

(***************************************************************************)
(* Structure.                                                              *)
(***************************************************************************)
LiveO(T) == {o \in Oids : T.own[o].st = 1}
KidSet(T, n) == {T.node[n].kids[k] : k \in 1..Len(T.node[n].kids)}
RECURSIVE Inside(_, _)
Inside(T, o) ==   \* the owners nested (at any depth) in what o owns
  IF T.own[o].ob = 0 THEN {}
  ELSE LET ks == KidSet(T, T.own[o].ob) IN ks \cup UNION {Inside(T, k) : k \in ks}
\* an owner must not be move-assigned, or swapped, into what it owns itself (that asks for a cycle)
Ops(T) ==
       {op \in {Op(o, r, q, a) : o \in {CCOPY, CMOVE}, r \in Roots, q \in LiveO(T), a \in {NoAl, 1, 2}} : T.root[op.p] = 0}
  \cup {Op(ACOPY, p, q, NoAl) : p \in LiveO(T), q \in LiveO(T)}
  \cup {op \in {Op(AMOVE, p, q, NoAl) : p \in LiveO(T), q \in LiveO(T)} : op.p \notin Inside(T, op.q)}
  \cup {op \in {Op(SWAP, p, q, NoAl) : p \in LiveO(T), q \in LiveO(T)} :
          /\ op.p \notin Inside(T, op.q) /\ op.q \notin Inside(T, op.p)
          /\ Pocs \/ AlEq(T.own[op.p].al, T.own[op.q].al)}
  \cup {op \in {Op(KILL, r, 0, NoAl) : r \in Roots} : T.root[op.p] # 0}

(***************************************************************************)
(* Initial structures: every pair of root trees with at most NMax owners,  *)
(* every allocator assignment, valueless leaves; at most two kids a node.  *)
(***************************************************************************)
RECURSIVE Trees(_)
Trees(n) ==
  IF n = 1 THEN [al : {1, 2}, nd : BOOLEAN, kids : {<<>>}]
  ELSE {[al |-> a, nd |-> TRUE, kids |-> k] : a \in {1, 2},
          k \in {<<t>> : t \in Trees(n - 1)} \cup
                UNION {{<<t, u>> : t \in Trees(i), u \in Trees(n - 1 - i)} : i \in 1..(n - 2)}}
RECURSIVE Load(_, _), LoadAll(_, _, _)
Load(T, t) ==
  IF ~t.nd THEN NewOwner(T, t.al, 0)
  ELSE LET U == Raw(T, t.al)  n == U.new
           R == LoadAll(U, t.kids, <<>>) IN
       NewOwner([R.t EXCEPT !.node[n].st = 2, !.node[n].val = n, !.node[n].kids = R.k], t.al, n)
LoadAll(T, q, done) ==
  IF q = <<>> THEN [t |-> T, k |-> done]
  ELSE LET U == Load(T, Head(q)) IN LoadAll(U, Tail(q), Append(done, U.newo))
Start(t) == LET U == Load(S0, t) IN Begin([U EXCEPT !.root[1] = U.newo], 0, 0)
Start2(t, u) == LET U == Load(Start(t), u) IN Begin([U EXCEPT !.root[2] = U.newo], 0, 0)
Starts == UNION {{Start(t) : t \in Trees(n)} : n \in 1..NMax}
          \cup UNION {UNION {{Start2(t, u) : t \in Trees(n), u \in Trees(m)} : m \in 1..(NMax - n)} : n \in 1..(NMax - 1)}

NoOp == [op |-> Op(0, 0, 0, NoAl), k |-> 0, n |-> 0, pre |-> S0]
Init == S \in Starts /\ last = NoOp /\ depth = 0
Faults == {<<0, 0>>} \cup ({1, 2, 3} \X (1..MaxFault))
Step(op, f) ==
  LET Q == Do(Begin(S, f[1], f[2]), op) IN
  /\ f[1] # 0 => Q.exc # 0 /\ ~Noexcept(op)   \* the failure is reached
  /\ S' = Q
  /\ last' = [op |-> op, k |-> f[1], n |-> f[2], pre |-> S]
  /\ depth' = depth + 1
Next == /\ depth < Depth /\ Cardinality({n \in Nids : S.node[n].st # 0}) <= NMax /\ Cardinality(LiveO(S)) <= NMax
        /\ \E op \in Ops(S) : \E f \in Faults : Step(op, f)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Printing: an owner in pre-order: allocator, node (0 none), value, kids. *)
(***************************************************************************)
RECURSIVE OutOwner(_, _), OutAll(_, _)
OutOwner(T, o) ==
  IF T.own[o].ob = 0 THEN <<T.own[o].al, 0, 0, 0>>
  ELSE LET n == T.node[T.own[o].ob] IN <<T.own[o].al, T.own[o].ob, n.val, Len(n.kids)>> \o OutAll(T, n.kids)
OutAll(T, q) == IF q = <<>> THEN <<>> ELSE OutOwner(T, Head(q)) \o OutAll(T, Tail(q))
Out(T) == (IF T.root[1] = 0 THEN <<-9>> ELSE OutOwner(T, T.root[1])) \o (IF T.root[2] = 0 THEN <<-9>> ELSE OutOwner(T, T.root[2]))
View == <<Out(S), depth>>
\* a path to an owner: root, then kid positions, closed by 0
RECURSIVE PathIn(_, _, _)
PathIn(T, o, q) ==    \* o = owner we are at, q = owner wanted (inside or equal)
  IF o = q THEN <<0>>
  ELSE LET ks == T.node[T.own[o].ob].kids
           k == CHOOSE i \in 1..Len(ks) : ks[i] = q \/ q \in Inside(T, ks[i]) IN
       <<k>> \o PathIn(T, ks[k], q)
Path(T, q) == LET r == CHOOSE r \in Roots : T.root[r] # 0 /\ (T.root[r] = q \/ q \in Inside(T, T.root[r])) IN
              <<r>> \o PathIn(T, T.root[r], q)
Bit(b) == IF b THEN 1 ELSE 0
CfgOut == <<Kind, Bit(Pocca), Bit(Pocma), Bit(Pocs), Bit(Ae), Bit(Sel)>>
EdgeOut(l, Q) ==
  <<77200>> \o CfgOut
  \o <<l.op.o, l.op.a, l.k, l.n, Q.exc>>
  \o (IF l.op.o \in {CCOPY, CMOVE, KILL} THEN <<l.op.p, 0>> ELSE Path(l.pre, l.op.p))
  \o (IF l.op.q = 0 THEN <<0>> ELSE Path(l.pre, l.op.q))
  \o Out(l.pre) \o Out(Q)
Edges == IF Emit THEN PrintT(ToString(EdgeOut(last', S'))) ELSE TRUE

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
Held(T) == {T.own[o].ob : o \in LiveO(T)} \ {0}
Reach(T) == UNION {{T.root[r]} \cup Inside(T, T.root[r]) : r \in {x \in Roots : T.root[x] # 0}}
\* a proper forest: everything alive is reachable from the roots exactly once, nothing else exists
Forest(T) ==
  /\ LiveO(T) = Reach(T)
  /\ {n \in Nids : T.node[n].st # 0} = Held(T) /\ \A n \in Held(T) : T.node[n].st = 2
  /\ \A o, p \in LiveO(T) : o # p /\ T.own[o].ob # 0 => T.own[o].ob # T.own[p].ob
  /\ \A o \in LiveO(T) : T.own[o].ob # 0 => T.node[T.own[o].ob].tag = TagOf(T.own[o].al)
RECURSIVE ShapeOf(_, _), ShapesOf(_, _)
ShapeOf(T, o) == IF T.own[o].ob = 0 THEN <<>> ELSE <<T.node[T.own[o].ob].val, ShapesOf(T, T.node[T.own[o].ob].kids)>>
ShapesOf(T, q) == IF q = <<>> THEN <<>> ELSE <<ShapeOf(T, Head(q))>> \o ShapesOf(T, Tail(q))
\* the target holds exactly what the source held, however they are nested; allocators by the traits
Value(P, l, Q) ==
  (Q.exc = 0 /\ l.op.o \in {ACOPY, AMOVE, CCOPY, CMOVE} /\ l.op.p # l.op.q) =>
    LET tgt == IF l.op.o \in {ACOPY, AMOVE} THEN l.op.p ELSE Q.root[l.op.p] IN
    /\ tgt \in LiveO(Q) =>
         /\ ShapeOf(Q, tgt) = ShapeOf(P, l.op.q)
         /\ l.op.o = ACOPY => Q.own[tgt].al = (IF Pocca THEN P.own[l.op.q].al ELSE P.own[tgt].al)
         /\ l.op.o = AMOVE => Q.own[tgt].al = (IF Pocma THEN P.own[l.op.q].al ELSE P.own[tgt].al)
         /\ (l.op.o = AMOVE /\ AlEq(P.own[l.op.p].al, P.own[l.op.q].al)) => Q.own[tgt].ob = P.own[l.op.q].ob
    /\ (l.op.o \in {ACOPY, AMOVE}) => tgt \in LiveO(Q)
Unchanged(P, Q) == P.own = Q.own /\ P.node = Q.node /\ P.root = Q.root
StepOk == LET Q == S'  l == last' IN
  /\ Q.err = 0 /\ Forest(Q)
  /\ Q.exc # 0 => Unchanged(S, Q) /\ Q.born \cap Held(Q) = {}
  /\ (l.op.p = l.op.q /\ l.op.o \in {ACOPY, AMOVE, SWAP}) => Unchanged(S, Q)
  /\ Value(S, l, Q)
StepProps == [][StepOk]_vars
=============================================================================
