------------------------------ MODULE VTAllocs ------------------------------
(***************************************************************************)
(* The repository's own allocators (C23): xyz::TaggedAllocator (kind 1)    *)
(* and xyz::TrackingAllocator (kind 2), the storage obtained through them  *)
(* and the owners that use them.                                           *)
(*                                                                         *)
(* State.  pool: four allocator objects <<element type, data>> (0: none).  *)
(* data is what an allocator carries: the tag, or the pair of counters;    *)
(* 1..4 name the four tags / the four pairs <<A-counter, D-counter>>.      *)
(* own: two indirects (1, 2) and two polymorphics (3, 4), each             *)
(* <<alive, data of its allocator, value>> (value -1: valueless).          *)
(* raw: storage obtained directly, how many blocks per data.               *)
(* Next validates one record of a history of the real code per step.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT FactsFile
F == ndJsonDeserialize(FactsFile)
VARIABLES i, bad, pool, own, raw, bal
vars == <<i, bad, pool, own, raw, bal>>

ACtr(d) == ((d - 1) \div 2) + 1
DCtr(d) == ((d - 1) % 2) + 1
B2I(b) == IF b THEN 1 ELSE 0
NoPool == [p \in 1..4 |-> <<0, 0>>]
NoOwn  == [q \in 1..4 |-> <<0, 0, 0>>]
NoRaw  == [d \in 1..4 |-> 0]

(***************************************************************************)
(* What an operation must do (P: the state before it).                     *)
(***************************************************************************)
x(r) == r.p + 1
y(r) == r.q + 1
D(P, q) == P[q][2]
V(P, q) == P[q][3]
IsPoly(q) == q > 2
\* building <<1, d, v>> out of owner t with allocator data d by moving: <<new owner, t afterwards>>
MoveFrom(P, t, d) == IF d = D(P, t) THEN <<<<1, d, V(P, t)>>, <<1, D(P, t), -1>>>>
                     ELSE IF V(P, t) = -1 THEN <<<<1, d, -1>>, P[t]>>
                     ELSE <<<<1, d, V(P, t)>>, <<1, D(P, t), 0>>>>
OwnAfter(r, P) ==
  LET s == x(r)  t == y(r) IN
  CASE r.op = "odef"   -> [P EXCEPT ![s] = <<1, r.d, 1>>]
    [] r.op = "oval"   -> [P EXCEPT ![s] = <<1, r.d, r.v>>]
    [] r.op = "ocopy"  -> [P EXCEPT ![s] = P[t]]
    [] r.op = "ocopya" -> [P EXCEPT ![s] = <<1, r.d, V(P, t)>>]
    [] r.op = "omove"  -> LET m == MoveFrom(P, t, D(P, t)) IN [P EXCEPT ![s] = m[1], ![t] = m[2]]
    [] r.op = "omovea" -> LET m == MoveFrom(P, t, r.d) IN [P EXCEPT ![s] = m[1], ![t] = m[2]]
    [] r.op = "oassign"  -> [P EXCEPT ![s] = <<1, D(P, s), V(P, t)>>]
    [] r.op = "omassign" -> IF s = t THEN P ELSE LET m == MoveFrom(P, t, D(P, s)) IN [P EXCEPT ![s] = m[1], ![t] = m[2]]
    [] r.op = "oswap"  -> [P EXCEPT ![s] = P[t], ![t] = P[s]]
    [] r.op = "okill"  -> [P EXCEPT ![s] = <<0, 0, 0>>]
    [] r.op \in {"owrite", "oset"} -> [P EXCEPT ![s] = <<1, D(P, s), r.v>>]
OwnerOp(r) == r.op \in {"odef", "oval", "ocopy", "ocopya", "omove", "omovea", "oassign", "omassign", "oswap", "okill", "owrite", "oset"}
PoolAfter(r, Q) ==
  CASE r.op = "make" -> [Q EXCEPT ![x(r)] = <<r.ty, r.d>>]
    [] r.op = "conv" -> [Q EXCEPT ![x(r)] = <<r.ty, Q[y(r)][2]>>]          \* rebinding keeps what it carries
    [] r.op \in {"assign", "massign"} -> [Q EXCEPT ![x(r)] = Q[y(r)]]
    [] r.op = "swap" -> [Q EXCEPT ![x(r)] = Q[y(r)], ![y(r)] = Q[x(r)]]
    [] r.op = "drop" -> [Q EXCEPT ![x(r)] = <<0, 0>>]
    [] r.op = "dealloc" /\ r.got = 9 -> [Q EXCEPT ![1] = <<r.ty, r.d>>]    \* (clearing up at the end of a history)
    [] OTHER -> Q

Held(P, d) == Cardinality({q \in 1..4 : P[q][1] = 1 /\ P[q][2] = d /\ P[q][3] # -1})
SumD(f) == f[1] + f[2]
NoCount(r) == r.da = <<0, 0>> /\ r.dd = <<0, 0>>
\* the data of the only allocator the operation may use
Used(r, P, Q) == IF r.op \in {"alloc", "dealloc"} THEN pool[x(r)][2]
                 ELSE IF r.op = "okill" THEN D(P, x(r)) ELSE IF r.exc # 0 /\ P[x(r)][1] = 0 THEN (IF r.op = "ocopy" THEN D(P, y(r)) ELSE r.d) ELSE D(Q, x(r))
\* every storage request of the library is counted, once, by the counters of the allocator it went through; tags count nothing
Counted(r, d) ==
  IF r.kind = 1 THEN NoCount(r)
  ELSE /\ r.da[ACtr(d)] = r.news /\ r.dd[DCtr(d)] = r.dels
       /\ \A n \in 1..2 : (n # ACtr(d) => r.da[n] = 0) /\ (n # DCtr(d) => r.dd[n] = 0)

EqOk(r) == \A p, q \in 1..4 :
  r.eq[(p - 1) * 4 + q] = IF r.pool[p][1] = 0 \/ r.pool[p][1] # r.pool[q][1] THEN -1 ELSE B2I(r.pool[p][2] = r.pool[q][2])
Sane(r) == r.sized /\ r.aligned /\ EqOk(r)

JudgeOwner(r) ==
  LET P == own  Q == IF r.exc # 0 THEN own ELSE OwnAfter(r, own)
      d == Used(r, P, Q) IN
  /\ r.own = Q /\ r.pool = pool /\ Sane(r)
  /\ Counted(r, d)
  /\ \A e \in 1..4 : e # d => Held(Q, e) = Held(P, e) \/ (r.op = "oswap")
  /\ r.op # "oswap" => r.news - r.dels = Held(Q, d) - Held(P, d)
  /\ r.op \in {"omove", "oswap", "owrite"} => r.news = 0 /\ r.dels = 0
  /\ r.op \in {"odef", "oval"} /\ r.exc = 0 => r.news = 1 /\ r.dels = 0
Judge(r) ==
  CASE r.op \in {"start", "end"} -> NoCount(r) /\ r.pool = NoPool /\ r.own = NoOwn
    [] OwnerOp(r) -> JudgeOwner(r)
    [] r.op \in {"make", "conv", "assign", "massign", "swap", "drop"} ->
         /\ r.pool = PoolAfter(r, pool) /\ r.own = own /\ NoCount(r) /\ r.exc = 0 /\ Sane(r)
         /\ r.news = 0 /\ r.dels = 0
    [] r.op = "alloc" ->   \* d: 1 when it has to fail
         /\ r.pool = pool /\ r.own = own /\ Sane(r)
         /\ r.exc = B2I(r.d # 0)
         /\ r.exc = 0 => r.news = 1 /\ r.dels = 0 /\ r.got = 1
         /\ r.exc # 0 => r.news = 0 /\ r.dels = 0
         /\ Counted(r, pool[x(r)][2])
    [] r.op = "dealloc" ->
         /\ r.pool = PoolAfter(r, pool) /\ r.own = own /\ Sane(r) /\ r.exc = 0
         /\ r.news = 0 /\ r.dels = 1 /\ Counted(r, r.d)
    [] r.op = "build" ->   \* arguments arrive as given; 1: value, 2: non-const lvalue, 3: const lvalue, 4: rvalue, 5: none, 6: two
         /\ r.pool = pool /\ r.own = own /\ NoCount(r) /\ Sane(r) /\ r.news = 0 /\ r.dels = 0
         /\ r.built = r.f
         /\ r.got = CASE r.f = 4 -> r.v * 100 [] r.f = 5 -> 100 + r.v [] r.f = 6 -> (r.v * 10 + 7) * 100 + r.v [] OTHER -> r.v * 101
    [] OTHER -> FALSE

(***************************************************************************)
(* Invariants of the accepted histories: what the counters promise.        *)
(* bal[1], bal[2]: allocations and deallocations counted since the start.  *)
(***************************************************************************)
Live == Held(own, 1) + Held(own, 2) + Held(own, 3) + Held(own, 4) + raw[1] + raw[2] + raw[3] + raw[4]
Through(n, Ctr(_)) == {d \in 1..4 : Ctr(d) = n}
Balanced == (bad = 0 /\ i > 1 /\ F[1].kind = 2) => SumD(bal[1]) - SumD(bal[2]) = Live

Init == i = 1 /\ bad = 0 /\ pool = NoPool /\ own = NoOwn /\ raw = NoRaw /\ bal = <<<<0, 0>>, <<0, 0>>>>
Next == /\ i <= Len(F)
        /\ LET r == F[i]  ok == Judge(r)  st == r.op = "start" IN
           /\ IF ok THEN TRUE ELSE PrintT(<<77100, i>>)
           /\ bad' = bad + B2I(~ok)
           /\ pool' = r.pool /\ own' = r.own
           /\ raw' = CASE st -> NoRaw
                       [] r.op = "alloc" /\ r.exc = 0 -> [raw EXCEPT ![pool[x(r)][2]] = @ + 1]
                       [] r.op = "dealloc" -> [raw EXCEPT ![r.d] = @ - 1]
                       [] OTHER -> raw
           /\ bal' = IF st THEN <<<<0, 0>>, <<0, 0>>>>
                     ELSE <<[n \in 1..2 |-> bal[1][n] + r.da[n]], [n \in 1..2 |-> bal[2][n] + r.dd[n]]>>
        /\ i' = i + 1
        /\ IF i = Len(F) THEN PrintT(<<77101, i, bad'>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
