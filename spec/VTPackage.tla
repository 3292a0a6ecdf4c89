----------------------------- MODULE VTPackage -----------------------------
(***************************************************************************)
(* Consuming the library (C26).  A consumer obtains the package (as a      *)
(* subdirectory of its own build, or installed and found, asking for a     *)
(* version or not), then links targets one by one.  What it gets is the    *)
(* union of what the targets require: the language level, the definitions  *)
(* and the headers.  TLC enumerates the consumers; each is configured,     *)
(* compiled and run against the real build files and headers, and what it  *)
(* recorded is judged here (FactsFile).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLinks, FactsFile
VARIABLES mode, ask, got, links, own, i, bad
vars == <<mode, ask, got, links, own>>
jvars == <<i, bad>>

Version == 1                     \* of the package; 2 stands for the next major version
Targets == {"value_types", "indirect", "polymorphic", "indirect_cxx14", "indirect_cxx17", "polymorphic_cxx14", "polymorphic_cxx17"}
Std(t) == CASE t \in {"value_types", "indirect", "polymorphic"} -> 20
            [] t \in {"indirect_cxx14", "polymorphic_cxx14"} -> 14
            [] OTHER -> 17
Defs(t) == CASE t \in {"indirect_cxx14", "indirect_cxx17"} -> {"XYZ_INDIRECT_CXX_14"}
             [] t \in {"polymorphic_cxx14", "polymorphic_cxx17"} -> {"XYZ_POLYMORPHIC_CXX_14"}
             [] OTHER -> {}
Heads(t) == CASE t = "value_types" -> {"indirect.h", "polymorphic.h"}
              [] t = "indirect" -> {"indirect.h"}
              [] t = "polymorphic" -> {"polymorphic.h"}
              [] t \in {"indirect_cxx14", "indirect_cxx17"} -> {"indirect_cxx14.h"}
              [] OTHER -> {"polymorphic_cxx14.h"}
\* a program sees one implementation of each class
Clash(hs) == {"indirect.h", "indirect_cxx14.h"} \subseteq hs \/ {"polymorphic.h", "polymorphic_cxx14.h"} \subseteq hs
Offered(m) == IF m = "sub" THEN Targets ELSE IF m = "pkg" THEN {"value_types"} ELSE {}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
All(F(_), ls) == UNION {F(t) : t \in ls}
Level(ls, o) == Max({o} \cup {Std(t) : t \in ls})

Init == /\ mode \in {"sub", "pkg", "alone"} /\ ask \in 0..2 /\ (mode # "pkg" => ask = 0)
        /\ got = "no" /\ links = {} /\ own \in {0, 14, 17, 20, 23} /\ i = 0 /\ bad = 0
Obtain == /\ got = "no" /\ got' = IF ask > Version THEN "refused" ELSE "yes"
          /\ UNCHANGED <<mode, ask, links, own, jvars>>
Link(t) == /\ got = "yes" /\ t \in Offered(mode) \ links /\ Cardinality(links) < MaxLinks
           /\ ~Clash(All(Heads, links \cup {t}))
           /\ links' = links \cup {t} /\ UNCHANGED <<mode, ask, got, own, jvars>>
Next == Obtain \/ \E t \in Targets : Link(t)
Spec == Init /\ [][Next]_<<vars, jvars>>

\* linking more never takes anything away, and the order does not matter (links is a set)
Grows == [][\A t \in links : t \in links' /\ Level(links, own) <= Level(links', own) /\ All(Defs, links) \subseteq All(Defs, links')]_vars
Sufficient == \A t \in links : Level(links, own) >= Std(t) /\ Heads(t) \subseteq All(Heads, links)
Refused == got = "refused" => links = {}
Show == PrintT(<<77200, mode, ask, got, own>>) /\ PrintT(<<77201, links>>)

F == ndJsonDeserialize(FactsFile)
SetOf(s) == {s[n] : n \in DOMAIN s}
Judge(r) ==
  CASE r.f = "obtain"  -> r.got = IF r.ask > Version THEN "refused" ELSE "yes"
    [] r.f = "offer"   -> SetOf(r.targets) = Offered(r.mode)
    [] r.f = "quiet"   -> r.tests = 0 /\ r.installs = 0                   \* a subdirectory adds neither tests nor files to install
    [] r.f = "consume" -> LET ls == SetOf(r.links) IN
                          /\ r.compiled /\ r.ok
                          /\ r.std >= Level(ls, r.own)
                          /\ (r.own # 0 => r.std = Level(ls, r.own))
                          /\ SetOf(r.defs) = All(Defs, ls)
    [] OTHER           -> FALSE
JNext == /\ i < Len(F) /\ UNCHANGED vars
         /\ LET ok == Judge(F[i + 1]) IN
            i' = i + 1 /\ bad' = (IF ok THEN bad ELSE bad + 1) /\ IF ok THEN TRUE ELSE PrintT(<<77100, i + 1>>)
JInit == mode = "alone" /\ ask = 0 /\ got = "no" /\ links = {} /\ own = 0 /\ i = 0 /\ bad = 0
JSpec == JInit /\ [][JNext]_<<vars, jvars>>
Done == (i = Len(F)) => PrintT(<<77101, i, bad>>)
=============================================================================
