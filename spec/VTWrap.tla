------------------------------ MODULE VTWrap ------------------------------
(***************************************************************************)
(* The exploration wrappers (C28, exploration/wrapper.h): wrapper and      *)
(* constrained_wrapper approximate indirect without allocators.  A slot    *)
(* holds nothing or a wrapper; every wrapper owns one object of its own.   *)
(* TLC enumerates every history up to MaxLen operations, each of which may *)
(* fail in the element's constructor, and shows it with what is expected   *)
(* after each step; every history is replayed on the real wrappers, alone  *)
(* and as alternatives of a variant.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Vals, MaxLen
VARIABLES val,     \* slot -> value of the owned object, 0 if there is no wrapper
          own,     \* slot -> the owned object (number of its construction), 0 if none
          made,    \* constructions that succeeded
          dead,    \* objects destroyed
          hist     \* the operations, each with what it must lead to
vars == <<val, own, made, dead, hist>>

Init == val = [s \in Slots |-> 0] /\ own = [s \in Slots |-> 0] /\ made = 0 /\ dead = {} /\ hist = <<>>

\* one operation: its code, target, source, value, whether the element fails; afterwards: values, live objects
Log(op, d, s, v, fail) == hist' = Append(hist, <<op, d, s, v, IF fail THEN 1 ELSE 0>> \o [n \in 1..Cardinality(Slots) |-> val'[n]] \o <<Cardinality({n \in 1..made' : n \notin dead'})>>)
Make(d, v, fail) == IF fail THEN UNCHANGED <<val, own, made>>
                    ELSE val' = [val EXCEPT ![d] = v] /\ own' = [own EXCEPT ![d] = made + 1] /\ made' = made + 1

Default(d, v, fail) == val[d] = 0 /\ Make(d, v, fail) /\ UNCHANGED dead /\ Log(1, d, 0, v, fail)
Copy(d, s, fail) == val[d] = 0 /\ val[s] # 0 /\ Make(d, val[s], fail) /\ UNCHANGED dead /\ Log(2, d, s, 0, fail)
Assign(d, s, fail) == /\ val[d] # 0 /\ val[s] # 0 /\ (d = s => ~fail)
                      /\ IF d = s THEN UNCHANGED <<val, own, made, dead>>
                         ELSE Make(d, val[s], fail) /\ dead' = IF fail THEN dead ELSE dead \cup {own[d]}
                      /\ Log(3, d, s, 0, fail)
Destroy(d) == /\ val[d] # 0 /\ dead' = dead \cup {own[d]} /\ val' = [val EXCEPT ![d] = 0] /\ own' = [own EXCEPT ![d] = 0]
              /\ UNCHANGED made /\ Log(4, d, 0, 0, FALSE)
Next == /\ Len(hist) < MaxLen
        /\ \E d, s \in Slots, v \in Vals, fail \in BOOLEAN :
             \/ Default(d, v, fail) \/ Copy(d, s, fail) \/ Assign(d, s, fail) \/ (~fail /\ Destroy(d))
Spec == Init /\ [][Next]_vars

OwnsOne == \A s \in Slots : (val[s] # 0) = (own[s] # 0) /\ own[s] \notin dead
Unshared == \A s, t \in Slots : own[s] = own[t] /\ own[s] # 0 => s = t
NoLeak == {n \in 1..made : n \notin dead} = {own[s] : s \in Slots} \ {0}
FailsClean == [][(made' = made /\ dead' = dead) => (val' = val /\ own' = own)]_vars
SourceKept == [][\A s \in Slots : (hist' # hist /\ hist'[Len(hist')][2] # s) => (val'[s] = val[s] /\ own'[s] = own[s])]_vars
RECURSIVE Flat(_)
Flat(h) == IF h = <<>> THEN <<>> ELSE Head(h) \o Flat(Tail(h))
Show == Len(hist) < MaxLen \/ PrintT(Flat(hist))
=============================================================================
