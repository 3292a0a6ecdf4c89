------------------------------ MODULE VTReduce ------------------------------
(***************************************************************************)
(* The reduced compile database (C27, scripts/reduce_compile_commands.py). *)
(* A compile database is a sequence of commands; the build compiles some   *)
(* files several times (once per language version).  The reduction keeps   *)
(* the first command of every file outside the excluded directories.  TLC  *)
(* builds every database up to MaxLen commands one command at a time, next *)
(* to the incremental reduction, and shows each with what the script must  *)
(* print; every one is run through the real script.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen
VARIABLES excl, db, kept         \* excluded directories; commands (file numbers); positions kept so far
vars == <<excl, db, kept>>

\* the directories each file lies in, outermost first: a name that another name begins with is
\* another directory, and one directory lies in another
Dirs == {"a", "ab", "a/b"}
Path == <<"x.cc", "a/x.cc", "ab/x.cc", "a/b/x.cc", "a.cc", "../a/x.cc", "A/x.cc">>
In == <<{}, {"a"}, {"ab"}, {"a", "a/b"}, {}, {}, {}>>  \* the last but one lies outside the project
Files == DOMAIN Path
Excluded(f) == In[f] \cap excl # {}

Init == excl \in SUBSET Dirs /\ db = <<>> /\ kept = <<>>
Add(f) == /\ Len(db) < MaxLen
          /\ db' = Append(db, f)
          /\ kept' = IF Excluded(f) \/ \E n \in DOMAIN kept : db[kept[n]] = f THEN kept ELSE Append(kept, Len(db) + 1)
          /\ UNCHANGED excl
Next == \E f \in Files : Add(f)
Spec == Init /\ [][Next]_vars

\* what the reduction means, without reference to how it is computed
OnePerFile == \A m, n \in DOMAIN kept : db[kept[m]] = db[kept[n]] => m = n
EveryFile == \A n \in DOMAIN db : Excluded(db[n]) \/ \E m \in DOMAIN kept : db[kept[m]] = db[n]
NoneExcluded == \A m \in DOMAIN kept : ~Excluded(db[kept[m]])
First == \A m \in DOMAIN kept : \A n \in 1..(kept[m] - 1) : db[n] # db[kept[m]]
InOrder == \A m, n \in DOMAIN kept : m < n => kept[m] < kept[n]
Show == PrintT(<<77200, excl, db, kept>>)
=============================================================================
