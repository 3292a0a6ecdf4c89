------------------------------- MODULE VTFacts -------------------------------
(***************************************************************************)
(* Judges facts recorded from the real code (harness/facts_*.cc): each     *)
(* record is one observation, Judge says what the specification allows.    *)
(* Histories of hash containers carry model state from record to record.   *)
(* A record the specification does not allow is printed as <<77100, i>>,   *)
(* or <<77102, i>> if it is exactly the known finding of Quirk.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT FactsFile
F == ndJsonDeserialize(FactsFile)

VARIABLES i,     \* records judged so far
          bad,   \* how many were not allowed
          set,   \* C14: the elements a container of owners must hold now
          map,   \* C14: the mapping an unordered map of owners must hold now
          hv     \* C14: hash of the valueless state by type (-> first seen)
vars == <<i, bad, set, map, hv>>

B2I(b) == IF b THEN 1 ELSE 0

(* ---- C22: no-throw promises (per allocator traits) ---- *)
NoexceptOk(r) ==
  CASE r.op = "mctor"     -> r.ae => r.val
    [] r.op = "mctor_ext" -> r.val = r.ae
    [] r.op = "massign"   -> r.val = (r.ae \/ r.pocma)
    [] r.op = "swap"      -> r.val = (r.ae \/ r.pocs)
    [] r.op \in {"cctor", "cassign", "cctor_ext", "dctor", "dctor_ext", "inplace", "vassign"} -> ~r.val  \* these can fail
    [] OTHER -> r.val      \* observers, accessors, destructor

(* ---- C22 (C13, C14): type queries; r says what is true of the element and the allocator ---- *)
Trait(r) ==
  CASE r.q \in {"value_type", "allocator_type", "pointer", "const_pointer", "copy_constructible", "move_constructible",
                "copy_assignable", "move_assignable", "destructible", "extended_default", "extended_copy", "extended_move",
                "uses_allocator", "swap_member", "get_allocator", "valueless", "owner_of_owner", "is_indirect",
                "one_pointer_and_the_allocator", "copyable", "swappable"} -> TRUE
    [] r.q = "default_constructible" -> r.adef
    [] r.q \in {"hash_enabled", "hash_default_constructible"} -> r.kind = 1 /\ r.hashed
    [] r.q \in {"from_allocator_alone", "from_null", "from_pointer", "to_bool", "to_element", "trivially_copyable",
                "trivially_destructible", "compared", "across"} -> FALSE
TraitOk(r) == r.val = Trait(r)
CategoryOk(r) == r.got = r.cat /\ r.gotv = r.cat
\* the C++14 header's std::hash is enabled whatever the element (known finding hash-enabled)
HashQuirk(r) == r.f = "trait" /\ r.impl = 14 /\ r.q \in {"hash_enabled", "hash_default_constructible"} /\ r.kind = 1 /\ ~r.hashed /\ r.val

(* ---- C15: cat 1 T&, 2 const T&, 3 T&&, 4 const T&& ---- *)
DerivedOwn(r) == r.own \in {"derived", "derived-counting"}
AccessOk(r) ==
  LET c  == IF r.kind = 2 \/ r.acc # "*" THEN IF r.cat \in {1, 3} THEN 1 ELSE 2 ELSE r.cat
      ty == IF r.acc = "*" THEN <<"T&", "const T&", "T&&", "const T&&">>[c]
            ELSE <<"T*", "const T*">>[c]
  IN /\ r.ty = ty
     /\ r.sel = c + (IF DerivedOwn(r) THEN 10 ELSE 0)
     /\ r.same /\ r.allocs = 0 /\ r.touched = 0
LayerOk(r) == r.sel = (IF r.cst THEN 2 ELSE 1)
              /\ (r.ty # "-" => r.ty \in (IF r.cst THEN {"const T&", "const T*"} ELSE {"T&", "T*"}))

(* ---- C13: comparison.  Values are ranks; 100 compares with nothing. ---- *)
RECURSIVE Rel(_, _, _, _)
Rel(a, da, b, db) ==
  IF da > 0 /\ db > 0 THEN
    IF a = <<>> /\ b = <<>> THEN "eq" ELSE IF a = <<>> THEN "lt" ELSE IF b = <<>> THEN "gt"
    ELSE Rel(a[1], da - 1, b[1], db - 1)
  ELSE IF da > 0 THEN IF a = <<>> THEN "lt" ELSE Rel(a[1], da - 1, b, 0)
  ELSE IF db > 0 THEN IF b = <<>> THEN "gt" ELSE Rel(a, 0, b[1], db - 1)
  ELSE IF a = 100 \/ b = 100 THEN "un"
  ELSE IF a < b THEN "lt" ELSE IF a > b THEN "gt" ELSE "eq"
CmpOk(r) ==
  LET x == Rel(r.a, r.da, r.b, r.db)
      want == CASE r.op = "==" -> x = "eq" [] r.op = "!=" -> x # "eq"
                [] r.op = "<" -> x = "lt" [] r.op = ">" -> x = "gt"
                [] r.op = "<=" -> x \in {"lt", "eq"} [] r.op = ">=" -> x \in {"gt", "eq"}
  IN r.res = want /\ r.stable /\ r.touched = 0
PartialTypes == {"double", "part"}
WeakTypes == {"ltonly", "lteq", "weak", "trap"}
\* Nested owners of different types have no common reference: the standard's
\* synth-three-way then only knows <, and answers with weak_ordering.
Nested(r) == r.da > 1 \/ r.db > 1
Cmp3Ok(r) ==
  /\ r.res = Rel(r.a, r.da, r.b, r.db) /\ r.touched = 0
  /\ \/ r.cat = IF r.ta \in PartialTypes \/ r.tb \in PartialTypes THEN "partial"
                ELSE IF r.ta \in WeakTypes \/ r.tb \in WeakTypes THEN "weak" ELSE "strong"
     \/ Nested(r) /\ r.cat = "weak"
\* ... by which unordered values come out as equivalent: a known finding.
Quirk(r) ==
  /\ r.f \in {"cmp", "cmp3"}
  /\ r.impl = 20 /\ Nested(r) /\ r.da # r.db /\ r.touched = 0
  /\ Rel(r.a, r.da, r.b, r.db) = "un"
  /\ IF r.f = "cmp3" THEN r.res = "eq" /\ r.cat = "weak" ELSE r.op \in {"<=", ">="} /\ r.res /\ r.stable

(* ---- C14 ---- *)
HashOk(r) ==
  /\ r.stable /\ r.touched = 0
  /\ IF r.v = -1 THEN (r.ty \in DOMAIN hv => hv[r.ty] = r.h) ELSE r.h = r.want
HsetOk(r) ==
  LET after == CASE r.op = "new" -> {} [] r.op = "insert" -> set \cup {r.k} [] r.op = "erase" -> set \ {r.k}
                 [] OTHER -> set
  IN /\ r.op = "insert" => r.res = (r.k \notin set)
     /\ r.op \in {"erase", "find"} => r.res = (r.k \in set)
     /\ r.size = Cardinality(after)
HmapOk(r) ==
  CASE r.op = "put" -> r.got = r.v
    [] r.op = "get" -> r.got = (IF r.k \in DOMAIN map THEN map[r.k] ELSE 0)
    [] OTHER -> TRUE

(* ---- C16 ---- *)
ConsOk(r) ==
  /\ r.dyn = r.wantdyn /\ r.how = r.want /\ r.cats = r.wantcats /\ r.vals = r.wantvals
  /\ r.builds = 1 /\ r.allocs = 1 /\ r.frees = 0 /\ r.args = 0 /\ r.misplaced = 0
  /\ r.hooks >= 1 /\ ~r.valueless /\ r.uid = r.wantuid
ConsRestOk(r) ==
  CASE r.f = "zero"     -> r.zero /\ r.allocs = 1 /\ r.uid = r.wantuid
    [] r.f = "avail"    -> r.own = r.got
    [] r.f = "explicit" -> ~r.implicit
    [] r.f = "anything" -> r.how = r.want /\ r.allocs = r.wantallocs
    [] r.f = "pinned"   -> r.v = 4 /\ r.allocs = 1
    [] r.f = "ctad"     -> r.ok

(* ---- C12, C16: the value is an owner's own object, another owner's, or a part of one: one construction or
        one assignment from exactly that object, which a copy leaves alone ---- *)
ValiasOk(r) ==
  LET assign == r.form = "assign" /\ r.eng
      part == r.arg \in {"own part", "other part"}
  IN /\ r.how = (IF assign THEN "set " ELSE "new ") \o (IF part THEN "part " ELSE "") \o r.cat
     /\ r.allocs = (IF assign THEN 0 ELSE 1) /\ r.frees = 0 /\ (assign => r.same)
     /\ r.val = 5 /\ r.uid = r.wantuid
     /\ r.src = (IF r.cat = "&&" /\ r.arg \in {"other", "other part"} THEN -1 ELSE 5)

(* ---- C18: every element that comes or goes does so through a hook ---- *)
Has(h, b) == IF b = 1 THEN h % 2 = 1 ELSE h >= 2
HookOk(r) ==
  /\ r.newhook = (IF Has(r.h, 1) THEN r.born ELSE 0)
  /\ r.delhook = (IF Has(r.h, 2) THEN r.died ELSE 0)
  /\ r.stray = 0 /\ r.wrong = 0 /\ r.baddealloc = 0
\* slots are <<state, owner's allocator, element's allocator, value>>
AwareOk(r) == \A k \in 1..Len(r.post) : r.post[k][1] = 2 => r.post[k][2] = r.post[k][3]

(* ---- C21: an owner of a type that is incomplete where the owner is named: a history of copies, moves and
        assignments that starts from 3 (7 inside the mutual owners) adds one and a hundred, once each ---- *)
DeclOk(r) == r.got = (IF r.form = "mutual" THEN 7 ELSE 3) + 1 + 100

Judge(r) ==
  CASE r.f = "noexcept" -> NoexceptOk(r)
    [] r.f = "noexcept_default" -> r.mctor /\ r.massign /\ r.swap /\ r.dtor
    [] r.f = "trait"    -> TraitOk(r)
    [] r.f = "category" -> CategoryOk(r)
    [] r.f = "access"   -> AccessOk(r)
    [] r.f = "write"    -> r.same /\ r.stays
    [] r.f = "take"     -> r.got = 7 /\ (IF r.kind = 1 THEN r.left = 0 /\ r.touched = 1 ELSE r.left = 7 /\ r.touched = 1)
    [] r.f = "takec"    -> r.got = 7 /\ r.left = 7 /\ r.touched = 1
    [] r.f = "layer"    -> LayerOk(r)
    [] r.f = "cmp"      -> CmpOk(r)
    [] r.f = "cmp3"     -> Cmp3Ok(r)
    [] r.f = "hash"     -> HashOk(r)
    [] r.f = "hset"     -> HsetOk(r)
    [] r.f = "hmap"     -> HmapOk(r)
    [] r.f = "cons"     -> ConsOk(r)
    [] r.f \in {"zero", "avail", "explicit", "anything", "pinned", "ctad"} -> ConsRestOk(r)
    [] r.f = "valias"   -> ValiasOk(r)
    [] r.f = "hook"     -> HookOk(r)
    [] r.f = "aware"    -> AwareOk(r)
    [] r.f = "decl"     -> DeclOk(r)
    [] OTHER            -> FALSE

Init == i = 0 /\ bad = 0 /\ set = {} /\ map = <<>> /\ hv = <<>>
Next ==
  /\ i < Len(F)
  /\ LET r == F[i + 1]
         ok == Judge(r) IN
     /\ i' = i + 1
     /\ bad' = IF ok THEN bad ELSE bad + 1
     /\ IF ok THEN TRUE ELSE PrintT(<<IF Quirk(r) \/ HashQuirk(r) THEN 77102 ELSE 77100, i + 1>>)
     /\ set' = IF r.f # "hset" THEN set
               ELSE CASE r.op = "new" -> {} [] r.op = "insert" -> set \cup {r.k} [] r.op = "erase" -> set \ {r.k}
                      [] OTHER -> set
     /\ map' = IF r.f # "hmap" THEN map
               ELSE CASE r.op = "new" -> <<>>
                      [] r.op = "put" -> [k \in DOMAIN map \cup {r.k} |-> IF k = r.k THEN r.v ELSE map[k]]
                      [] OTHER -> map
     /\ hv' = IF r.f = "hash" /\ r.v = -1 /\ r.ty \notin DOMAIN hv
              THEN [k \in DOMAIN hv \cup {r.ty} |-> IF k = r.ty THEN r.h ELSE hv[k]] ELSE hv
Spec == Init /\ [][Next]_vars
\* all records judged
Done == (i = Len(F)) => PrintT(<<77101, i, bad>>)
=============================================================================
