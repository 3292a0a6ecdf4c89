------------------------------ MODULE VTBoxes ------------------------------
(***************************************************************************)
(* Containers and composites of owners (C20).  Two boxes of the same type  *)
(* hold owners ("cells"); every operation of the standard library or of    *)
(* the compiler-generated members is described by what it must do to the   *)
(* cells: which owned objects survive (by identity), which are new, which  *)
(* cells become valueless.  Validates histories recorded from the real     *)
(* code (harness/boxes.cc), one record per operation.                      *)
(*   fam: seq (vector, deque, list), prod (struct, pair, tuple, array),    *)
(*        opt (optional, variant), map, set                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT FactsFile
F == ndJsonDeserialize(FactsFile)
VARIABLES i, bad, cur
vars == <<i, bad, cur>>

Max2(a, b) == IF a > b THEN a ELSE b
\* a recorded cell <<id, value*10+type, allocator>> (id 0: valueless)
Id(c) == c[1]
Vt(c) == c[2]
Rank(c) == IF Id(c) = 0 THEN -1 ELSE Vt(c) \div 10
Ids(b) == {Id(b.c[n]) : n \in DOMAIN b.c} \ {0}

(***************************************************************************)
(* What a cell must be: one of the known objects ids, or (fr) a new one.   *)
(***************************************************************************)
Null     == [ids |-> {0}, fr |-> FALSE, vt |-> 0]
Same(c)  == [ids |-> {Id(c)}, fr |-> FALSE, vt |-> Vt(c)]
New(vt)  == [ids |-> {}, fr |-> TRUE, vt |-> vt]
CopyOf(c) == IF Id(c) = 0 THEN Null ELSE New(Vt(c))
\* moved or copied, at the library's choice
Moved(c, copying) == IF Id(c) = 0 THEN Null ELSE IF copying THEN [Same(c) EXCEPT !.fr = TRUE] ELSE Same(c)
MapC(q, G(_)) == [n \in DOMAIN q |-> G(q[n])]
Sames(q) == MapC(q, Same)
Copies(q) == MapC(q, CopyOf)
Nulls(q) == [n \in DOMAIN q |-> Null]
Ins(q, p, r) == SubSeq(q, 1, p - 1) \o r \o SubSeq(q, p, Len(q))
Del(q, p, e) == SubSeq(q, 1, p - 1) \o SubSeq(q, e, Len(q))     \* removes p .. e-1
Set1(q, p, x) == [q EXCEPT ![p] = x]
Box(on, c, k) == [on |-> on, c |-> c, k |-> k]

TypeOf(kind, v) == IF kind = 1 THEN 1 ELSE (v % 4) + 1
VtOf(r) == (r.v * 10) + TypeOf(r.kind, r.v)

\* owner copy assignment p = q with equal allocators (C01, C12)
AssignCell(r, p, q) ==
  IF Id(q) = 0 THEN Null
  ELSE IF r.kind = 1 /\ Id(p) # 0 THEN [ids |-> {Id(p)}, fr |-> FALSE, vt |-> Vt(q)]
  ELSE New(Vt(q))

RECURSIVE InsertBy(_, _), StableSort(_)
InsertBy(q, c) == IF q = <<>> THEN <<c>>
                  ELSE IF Rank(c) < Rank(Head(q)) THEN <<c>> \o q ELSE <<Head(q)>> \o InsertBy(Tail(q), c)
StableSort(q) == IF q = <<>> THEN <<>> ELSE InsertBy(StableSort(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
Pos(k, key) == Cardinality({n \in DOMAIN k : k[n] < key}) + 1     \* where key goes in sorted k
PosV(q, v) == Cardinality({n \in DOMAIN q : Rank(q[n]) < v}) + 1
Has(k, key) == \E n \in DOMAIN k : k[n] = key
Where(k, key) == CHOOSE n \in DOMAIN k : k[n] = key
Container(r) == r.fam \in {"seq", "map", "set"}

\* (x, y) after r, as <<box, box>> of required cells
Expect(r, x, y) ==
  LET copying == ~r.grow /\ (r.vec \/ r.op \in {"reserve", "shrink"})
      X == [n \in DOMAIN x.c |-> Moved(x.c[n], copying)]
      ys == Sames(y.c)  xs == Sames(x.c)
      YB == Box(y.on, ys, y.k)
      XB(q) == Box(x.on, q, x.k)
      key == r.i - 1
  IN
  CASE r.op = "bcopy" -> <<Box(x.on, xs, x.k), Box(x.on, Copies(x.c), x.k)>>
    [] r.op = "bmove" -> IF Container(r) THEN <<Box(TRUE, <<>>, <<>>), Box(x.on, xs, x.k)>>
                         ELSE <<Box(x.on, Nulls(x.c), x.k), Box(x.on, xs, x.k)>>
    [] r.op = "bassign" ->
         <<Box(x.on, xs, x.k),
           IF Container(r) THEN Box(TRUE, [n \in DOMAIN x.c |-> IF Id(x.c[n]) = 0 THEN Null
                                           ELSE [ids |-> Ids(y), fr |-> TRUE, vt |-> Vt(x.c[n])]], x.k)
           ELSE Box(x.on, [n \in DOMAIN x.c |-> IF n \in DOMAIN y.c THEN AssignCell(r, y.c[n], x.c[n]) ELSE CopyOf(x.c[n])], <<>>)>>
    [] r.op = "bmassign" -> IF Container(r) THEN <<Box(TRUE, <<>>, <<>>), Box(TRUE, xs, x.k)>>
                            ELSE <<Box(x.on, Nulls(x.c), x.k), Box(x.on, xs, x.k)>>
    [] r.op = "bswap" -> <<YB, Box(x.on, xs, x.k)>>
    [] r.op = "bself" -> <<XB(xs), YB>>
    [] r.op = "write" -> <<XB(Set1(xs, r.i, [Same(x.c[r.i]) EXCEPT !.vt = (r.v * 10) + (Vt(x.c[r.i]) % 10)])), YB>>
    [] r.op = "moveout" -> <<XB(Set1(xs, r.i, Null)), YB>>
    [] r.op = "elcopy" -> <<XB(IF r.i = r.j THEN xs ELSE Set1(xs, r.i, AssignCell(r, x.c[r.i], x.c[r.j]))), YB>>
    [] r.op = "elmove" -> <<XB(IF r.i = r.j THEN xs ELSE Set1(Set1(xs, r.j, Null), r.i, xs[r.j])), YB>>
    [] r.op = "elswap" -> <<XB(Set1(Set1(xs, r.j, xs[r.i]), r.i, xs[r.j])), YB>>
    [] r.op = "elreset" -> <<XB(Set1(xs, r.i, New(VtOf(r)))), YB>>
    \* sequences
    [] r.op = "push" -> <<XB(Append(X, New(VtOf(r)))), YB>>
    [] r.op = "pushcopy" -> <<XB(Append(X, CopyOf(y.c[r.i]))), YB>>
    [] r.op = "pushself" -> <<XB(Append(X, CopyOf(x.c[r.i]))), YB>>
    [] r.op = "insert" -> <<XB(Ins(X, r.i, <<New(VtOf(r))>>)), YB>>
    [] r.op = "insself" -> <<XB(Ins(X, r.i, <<CopyOf(x.c[r.j])>>)), YB>>
    [] r.op = "insrange" -> <<XB(Ins(X, r.i, Copies(y.c))), YB>>
    [] r.op = "insmove" -> <<XB(Ins(X, r.i, ys)), Box(TRUE, Nulls(y.c), <<>>)>>
    [] r.op = "erase" -> <<XB(Del(xs, r.i, r.i + 1)), YB>>
    [] r.op = "erasen" -> <<XB(Del(xs, r.i, r.j)), YB>>
    [] r.op = "pop" -> <<XB(SubSeq(xs, 1, Len(xs) - 1)), YB>>
    [] r.op = "clear" -> <<Box(TRUE, <<>>, <<>>), YB>>
    [] r.op \in {"reserve", "shrink"} -> <<XB(X), YB>>
    [] r.op = "sort" -> <<XB(Sames(StableSort(x.c))), YB>>
    [] r.op = "reverse" -> <<XB([n \in DOMAIN xs |-> xs[Len(xs) + 1 - n]]), YB>>
    [] r.op = "rotate" -> <<XB(SubSeq(xs, r.i, Len(xs)) \o SubSeq(xs, 1, r.i - 1)), YB>>
    [] r.op = "partition" -> <<XB(Sames(SelectSeq(x.c, LAMBDA c : Rank(c) < r.v) \o SelectSeq(x.c, LAMBDA c : Rank(c) >= r.v))), YB>>
    [] r.op = "remove" -> <<XB(Sames(SelectSeq(x.c, LAMBDA c : Rank(c) # r.v))), YB>>
    \* optional, variant
    [] r.op \in {"emplace", "oassign"} -> <<Box(TRUE, <<New(VtOf(r))>>, <<>>), YB>>
    [] r.op = "reset" -> <<Box(FALSE, <<>>, <<>>), YB>>
    \* maps
    [] r.op \in {"mput", "mtry"} ->
         <<IF Has(x.k, key) THEN XB(xs)
           ELSE Box(TRUE, Ins(xs, Pos(x.k, key), <<New(VtOf(r))>>), Ins(x.k, Pos(x.k, key), <<key>>)), YB>>
    [] r.op = "merase" -> LET p == Where(x.k, key) IN <<Box(TRUE, Del(xs, p, p + 1), Del(x.k, p, p + 1)), YB>>
    [] r.op = "mextract" ->
         LET p == Where(x.k, key)  to == r.j - 1
             k1 == Del(x.k, p, p + 1)  c1 == Del(xs, p, p + 1) IN
         <<Box(TRUE, Ins(c1, Pos(k1, to), <<xs[p]>>), Ins(k1, Pos(k1, to), <<to>>)), YB>>
    \* sets (ordered by value)
    [] r.op = "sput" -> <<IF \E n \in DOMAIN x.c : Rank(x.c[n]) = r.v THEN XB(xs)
                          ELSE XB(Ins(xs, PosV(x.c, r.v), <<New(VtOf(r))>>)), YB>>
    [] r.op = "scopy" -> LET v == Rank(y.c[r.i]) IN
                         <<IF \E n \in DOMAIN x.c : Rank(x.c[n]) = v THEN XB(xs)
                           ELSE XB(Ins(xs, PosV(x.c, v), <<CopyOf(y.c[r.i])>>)), YB>>
    [] r.op = "serase" -> <<XB(Del(xs, r.i, r.i + 1)), YB>>

\* no element is built, copied or assigned: owners only hand their objects on
CheapOp(r) ==
  \/ r.op \in {"bmove", "bmassign", "bswap", "bself", "write", "moveout", "elmove", "elswap", "erase", "erasen", "pop", "clear", "sort",
               "usort", "reverse", "rotate", "remove", "partition", "merase", "mextract", "serase", "reset"}
  \/ r.op \in {"insmove", "reserve", "shrink"} /\ r.grow
StrongOp(r) == r.op \in {"push", "pushcopy", "pushself", "bcopy", "elcopy", "elreset", "mput", "mtry", "sput", "scopy", "reserve"}

(***************************************************************************)
(* Judging a record against the state before it.                           *)
(***************************************************************************)
CellOk(w, c, old) == IF w.vt = 0 /\ w.ids = {0} THEN Id(c) = 0
                     ELSE /\ Id(c) \in w.ids \/ (w.fr /\ Id(c) > 0 /\ Id(c) \notin old)
                          /\ Vt(c) = w.vt
BoxOk(w, b, old) == /\ b.on = w.on /\ b.k = w.k /\ Len(b.c) = Len(w.c)
                    /\ \A n \in DOMAIN b.c : CellOk(w.c[n], b.c[n], old)
AllCells(r) == r.b[1].c \o r.b[2].c
Engaged(r) == {n \in DOMAIN AllCells(r) : Id(AllCells(r)[n]) # 0}
SoundState(r) ==
  LET q == AllCells(r) IN
  /\ \A n \in DOMAIN q : q[n][3] = 1 /\ Id(q[n]) >= 0
  /\ \A m, n \in Engaged(r) : m # n => Id(q[m]) # Id(q[n])
  /\ r.live = Cardinality(Engaged(r)) /\ r.blocks = Cardinality(Engaged(r)) /\ r.errs = <<>>
SameBox(b, d) == b.on = d.on /\ b.k = d.k /\ b.c = d.c
Vts(b) == {Vt(b.c[n]) : n \in DOMAIN b.c}
Perm(p, q) == Len(p) = Len(q) /\ {<<Id(p[n]), Vt(p[n])>> : n \in {m \in DOMAIN p : Id(p[m]) # 0}} = {<<Id(q[n]), Vt(q[n])>> : n \in {m \in DOMAIN q : Id(q[m]) # 0}}
Sorted(q) == \A n \in 1..(Len(q) - 1) : Rank(q[n]) <= Rank(q[n + 1])
RECURSIVE Lex(_, _)
Lex(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE
             ELSE IF Rank(Head(p)) # Rank(Head(q)) THEN Rank(Head(p)) < Rank(Head(q)) ELSE Lex(Tail(p), Tail(q))
Ranks(q) == [n \in DOMAIN q |-> Rank(q[n])]
B2I(b) == IF b THEN 1 ELSE 0
CmpOk(r) == /\ r.eq # -1 => r.eq = B2I(r.b[1].on = r.b[2].on /\ r.b[1].k = r.b[2].k /\ Ranks(r.b[1].c) = Ranks(r.b[2].c))
            /\ r.lt # -1 => r.lt = B2I(Lex(r.b[1].c, r.b[2].c))
JudgeOp(r) ==
  LET xi == r.x  yi == 3 - r.x
      x == cur[xi]  y == cur[yi]
      nx == r.b[xi]  ny == r.b[yi]
      old == Ids(x) \cup Ids(y) IN
  /\ SoundState(r) /\ CmpOk(r)
  /\ IF r.exc # 0 THEN
       /\ r.exc = r.flt
       /\ IF StrongOp(r) THEN SameBox(nx, x) /\ SameBox(ny, y)
          ELSE /\ (Vts(nx) \cup Vts(ny)) \subseteq (Vts(x) \cup Vts(y) \cup {0, VtOf(r)})
               /\ IF r.op = "bassign" THEN SameBox(nx, x) ELSE SameBox(ny, y)
     ELSE IF r.op = "usort" THEN Perm(nx.c, x.c) /\ Sorted(nx.c) /\ SameBox(ny, y)
     ELSE LET w == Expect(r, x, y) IN BoxOk(w[1], nx, old) /\ BoxOk(w[2], ny, old)
  /\ CheapOp(r) => r.born = 0 /\ r.assigned = 0
  /\ r.op \in {"push", "emplace", "oassign", "elreset"} /\ r.exc = 0 /\ (r.grow \/ ~r.vec) => r.born = 1 /\ r.assigned = 0
Judge(r) ==
  \* with always equal allocators containers must be able to relocate owners by moving them
  CASE r.op = "start" -> SoundState(r) /\ CmpOk(r) /\ (r.ae => r.grow)
    [] r.op = "end"   -> r.live = 0 /\ r.blocks = 0 /\ r.errs = <<>>
    [] OTHER -> JudgeOp(r)

Init == i = 1 /\ bad = 0 /\ cur = <<>>
Next == /\ i <= Len(F)
        /\ LET r == F[i]  ok == Judge(r) IN
           /\ IF ok THEN TRUE ELSE PrintT(<<77100, i>>)
           /\ bad' = bad + B2I(~ok)
           /\ cur' = IF r.op = "end" THEN <<>> ELSE r.b
        /\ i' = i + 1
        /\ IF i = Len(F) THEN PrintT(<<77101, i, bad'>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
