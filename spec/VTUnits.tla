------------------------------ MODULE VTUnits ------------------------------
(***************************************************************************)
(* Translation units (C25).  A unit is a sequence of #include lines of the *)
(* library's headers.  Every header has its own guard; the headers that    *)
(* "work as a single include" duplicate small shared entities, each under  *)
(* a guard of its own, so the first header included defines it.  TLC       *)
(* enumerates the units; each is compiled from the real headers, all are   *)
(* linked into one program and exchange owners (harness/unit.inc), and the *)
(* recorded facts are judged here (FactsFile).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, V, FactsFile
VARIABLES text, guards, by,      \* a unit: its #include lines, the guards set, <<entity, defining header>>
          i, bad, seen           \* judging recorded facts
vars == <<text, guards, by>>
jvars == <<i, bad, seen>>

Headers == {"ind", "pol", "fc", "tag", "trk"}
Own(h) == CASE h = "ind" -> {"indirect"} [] h = "pol" -> {"polymorphic"} [] h = "fc" -> {"features"}
            [] h = "tag" -> {"TaggedAllocator"} [] h = "trk" -> {"TrackingAllocator"}
Shared(h) == CASE h = "ind" -> IF V = 14 THEN {"unreachable", "empty_base", "in_place"} ELSE {"unreachable"}
               [] h = "pol" -> IF V = 14 THEN {"unreachable", "empty_base", "in_place_type"} ELSE {"unreachable"}
               [] OTHER -> {}
Nested(h) == IF h = "ind" /\ V = 14 THEN {"fc"} ELSE {}
Entities == UNION {Own(h) \cup Shared(h) : h \in Headers}
Needs(h) == Own(h) \cup Shared(h) \cup UNION {Own(g) : g \in Nested(h)}

\* the definitions one #include adds
Defines(h, gs) == {<<e, h>> : e \in {x \in Own(h) : h \notin gs} \cup {x \in Shared(h) : h \notin gs /\ x \notin gs}}
                  \cup {<<e, g>> : g \in {y \in Nested(h) : h \notin gs /\ y \notin gs}, e \in UNION {Own(y) : y \in Nested(h)}}
Guards(h) == {h} \cup Shared(h) \cup Nested(h)

Init == text = <<>> /\ guards = {} /\ by = {} /\ i = 0 /\ bad = 0 /\ seen = <<>>
Include(h) ==
  /\ Len(text) < MaxLen
  /\ text' = Append(text, h)
  /\ by' = by \cup Defines(h, guards)
  /\ guards' = guards \cup Guards(h)
  /\ UNCHANGED jvars
Next == \E h \in Headers : Include(h)
Spec == Init /\ [][Next]_<<vars, jvars>>

In(t) == {t[n] : n \in DOMAIN t}
OneDefinition == \A d, e \in by : d[1] = e[1] => d = e
SelfContained == \A h \in In(text) : \A e \in Needs(h) : \E d \in by : d[1] = e
OrderFree == {d[1] : d \in by} = UNION {Needs(h) : h \in In(text)}
Repeats == [][\A n \in DOMAIN text : text'[Len(text')] = text[n] => by' = by]_vars
Show == text = <<>> \/ PrintT(<<77200, text>>)

(***************************************************************************)
(* Facts of the linked units.                                              *)
(***************************************************************************)
F == ndJsonDeserialize(FactsFile)
Judge(r) ==
  CASE r.f = "layout"  -> \A n \in DOMAIN seen : seen[n].q = r.q => seen[n].val = r.val     \* the same in every unit
    [] r.f = "give"    -> r.got = r.v /\ r.copy = r.v /\ r.uid /\ r.live = 0 /\ r.wrong = 0
    [] r.f = "feature" -> r.got = r.avail
    [] OTHER           -> FALSE
JNext ==
  /\ i < Len(F) /\ UNCHANGED vars
  /\ LET r == F[i + 1]  ok == Judge(r) IN
     /\ i' = i + 1 /\ bad' = IF ok THEN bad ELSE bad + 1
     /\ IF ok THEN TRUE ELSE PrintT(<<77100, i + 1>>)
     /\ seen' = IF r.f = "layout" /\ \A n \in DOMAIN seen : seen[n].q # r.q THEN Append(seen, [q |-> r.q, val |-> r.val]) ELSE seen
JSpec == Init /\ [][JNext]_<<vars, jvars>>
Done == (i = Len(F)) => PrintT(<<77101, i, bad>>)
=============================================================================
