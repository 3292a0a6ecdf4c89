------------------------------- MODULE VTFoot -------------------------------
(***************************************************************************)
(* Judges the memory footprints recorded from the real code                *)
(* (harness/foot.cc): every call writes only the owners it changes, their  *)
(* objects, storage obtained by the call itself and an argument given away *)
(* as an rvalue; it reads, of the owners and their objects, only those it  *)
(* names; it never touches storage already given back.  VTConc shows that  *)
(* this makes operations that obey VTRule!Allowed free of races.           *)
(***************************************************************************)
EXTENDS VTRule, Json
CONSTANT FactsFile
F == ndJsonDeserialize(FactsFile)
VARIABLES i, bad
vars == <<i, bad>>
\* classes of memory: slot s, 10 + s the object of slot s, and
Fresh == 20  Arg == 21  Stale == 22  Elsewhere == 23
Set(q) == {q[j] : j \in DOMAIN q}
Own(A) == A \cup {10 + s : s \in A}
GivesArg(r) == r.o \in {CVAL, AVAL} /\ r.f # 2
WritesOk(r) == Set(r.wr) \subseteq Own(Mut(r)) \cup {Fresh} \cup (IF GivesArg(r) THEN {Arg} ELSE {})
ReadsOk(r) == Set(r.rd) \subseteq Own(Named(r)) \cup {Fresh, Arg, Elsewhere}
\* a failing call has not written what others can see of a source or a target
FailOk(r) == r.exc \in {1, 2} => \A s \in Mut(r) : r.st[s] = 2 /\ r.exc = 1 => 10 + s \notin Set(r.wr)
Ok(r) == WritesOk(r) /\ ReadsOk(r) /\ FailOk(r)
Init == i = 1 /\ bad = 0
Next == /\ i <= Len(F)
        /\ LET ok == Ok(F[i]) IN
           /\ IF ok THEN TRUE ELSE PrintT(<<77100, i>>)
           /\ bad' = IF ok THEN bad ELSE bad + 1
        /\ i' = i + 1
        /\ IF i = Len(F) THEN PrintT(<<77101, i, bad'>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
