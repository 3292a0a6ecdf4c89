#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to rewrite the file)."""
import json, os
H4 = ["indirect.h", "indirect_cxx14.h", "polymorphic.h", "polymorphic_cxx14.h"]
HI, HP = H4[:2], H4[2:]
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=list(files),
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=list(obs), hook_needed=hook)))
OWN = [("owned pointer / control block", "null exactly when the object is valueless", "p_ in indirect*.h, cb_ in polymorphic*.h"),
       ("stored allocator", "allocator that owns the storage", "alloc_ / empty_base_optimization base")]
GRID = "every reachable pair (and, in deeper runs, triple) of objects, every allocator-trait combination (propagation on copy/move/swap, always-equal, select-on-copy), equal and unequal allocators, element kinds, all four headers"

p("C01", "Copies are deep, equal and independent, and leave the source untouched",
  "Copy construction, allocator-extended copy construction and copy assignment from an engaged indirect or polymorphic leave the target owning an object that was produced from the source's owned object by exactly one copy construction (or one copy assignment), has an equal value, and lives at a different address, so later changes to either are never visible through the other. The source keeps the very same owned object, allocator and value: the source's owned object is only ever read, as a const object.",
  ["histories", "configurations", "inputs"], "Every history of operations on several objects leading to a copy; "+GRID+"; element types whose copy from a non-const lvalue differs from the copy from a const one.",
  "Tests copy one freshly built object with a well-behaved element type; they never mutate after chains of copies, nor use element types that can tell a const from a non-const copy source.",
  H4, [("copy constructors / allocator-extended copy", "indirect*.h, polymorphic*.h"), ("clone of the control block", "polymorphic*.h direct_control_block::clone"), ("copy assignment", "operator=(const&) in all four headers")], OWN,
  ["operator*", "operator->", "element constructor/assignment calls"])
p("C02", "polymorphic preserves the exact dynamic type and whole object; no slicing",
  "A polymorphic owns a complete object of exactly the derived type it was given, and every copy, move and assignment yields or transfers a complete object of that same dynamic type with the derived class's own state and overrides. Access through either a const or non-const polymorphic refers to the base-class subobject of that object, also with offset, multiple or virtual bases, and destruction destroys the derived object even when the base has no virtual destructor.",
  ["histories", "configurations", "inputs"], "Every sequence of constructions, copies, moves (equal and unequal allocators) and assignments mixing derived types; single, second-position, virtual and non-virtual-destructor bases; every constructor form.",
  "Tests use one or two derived types with the base at offset zero and each operation once from a fresh object.",
  HP, [("typed control block", "direct_control_block<U>"), ("constructors choosing U", "in_place_type / converting constructors")], OWN,
  ["operator*", "operator->", "typeid / virtual calls / derived state"])
p("C03", "Every owned object is destroyed exactly once; no leak, no use after destroy",
  "Over any history of operations, including operations that exit by exception, each object constructed by an indirect or polymorphic is destroyed exactly once and each storage block is deallocated exactly once, after its object's destruction, with the size it was allocated with. When the last owner is gone nothing remains allocated or alive, no two owners ever share an owned object, and no destroyed object is ever read, assigned or moved from.",
  ["histories", "fault_sequences", "configurations"], "Every history of create/copy/move/assign/swap/destroy over several objects, with a failure injected at every allocation, element construction and element assignment; "+GRID+".",
  "Tests count allocations for single operations and inject one throwing copy; they never enumerate histories or the fault points inside each operation.",
  H4, [("reset / destructor", "reset() in all four headers"), ("try/catch around construct", "construct_from, create_control_block, clone, move"), ("destroy with the right allocator", "destroy_with, control_block::destroy")], OWN,
  ["allocator allocate/deallocate", "element constructor/destructor"])
p("C04", "Storage comes from the owner's allocator and goes back to an equal one",
  "Whenever an indirect or polymorphic allocates it uses the allocator it holds (or is about to hold after the operation), and every block is returned to an allocator that compares equal to the one that provided it, in the same history and whatever moves, swaps, assignments or failures happened in between. An engaged object's allocator is always equal to the allocator that provided its storage.",
  ["histories", "configurations", "fault_sequences"], "Every history over objects with equal and unequal allocators; "+GRID+"; faults at every allocation/construction.",
  "Tests check tags on a few hand-picked two-object scenarios; most trait combinations and all longer histories are unvisited.",
  H4, [("allocator passed to construct/destroy", "construct_from/destroy_with, create_control_block/clone/move/destroy"), ("deferred allocator update", "assignment operators")], OWN,
  ["allocator allocate/deallocate", "get_allocator"])
p("C05", "Allocators propagate exactly as the allocator's traits say",
  "Copy construction takes the allocator the source allocator selects for copies, move construction takes the source's allocator, allocator-extended constructors take the given one; copy assignment, move assignment and swap replace (or exchange) the stored allocator exactly when the matching propagation trait is true, also when source or target is valueless or the operation moved no object. Failed operations leave the allocator unchanged, and allocators that need not be assignable because they never propagate are supported.",
  ["configurations", "histories", "inputs"], "All 2^5 trait combinations x engaged/valueless x equal/unequal allocators x every operation, all four headers.",
  "Tests instantiate a few trait combinations; each test covers one cell of a table of several hundred cells.",
  H4, [("allocator update after assignment", "operator= in all four headers"), ("swap of allocators", "swap"), ("select_on_container_copy_construction", "copy constructors")], OWN,
  ["get_allocator"])
p("C06", "Moves between equal allocators transfer the same object and empty the source",
  "Move construction, allocator-extended move construction and move assignment between objects whose allocators compare equal (or are always equal) hand over the source's owned object itself: same address, no allocation, no element constructor, assignment or move call, and the source is valueless afterwards. On move assignment the target's previous object is destroyed exactly once.",
  ["histories", "configurations"], "Every reachable state with two or more objects; "+GRID+"; element types that cannot be moved, or whose moves would throw or be observable.",
  "Tests check that the source is valueless and one allocation count; they do not track object identity over histories and trait combinations.",
  H4, [("pointer steal on move construction", "move constructors"), ("pointer exchange on move assignment", "operator=(&&)")], OWN,
  ["address of the owned object", "valueless_after_move", "allocation events"])
p("C07", "Moves across unequal allocators rebuild the object in the target's allocator",
  "When source and resulting target allocators compare unequal, allocator-extended move construction and move assignment construct a new owned object by exactly one move construction from the source's owned object (never a copy when it can be moved), in storage from the resulting allocator. The source is not left valueless unless it already was: it keeps its own object, in moved-from state, in its own storage, with its own allocator.",
  ["histories", "configurations"], "Every pair of objects with unequal allocators, engaged or valueless, all propagation-trait combinations, types whose move leaves a distinguishable state and types with only copies.",
  "Tests look at one unequal-allocator move per class and cannot cover the trait x state table.",
  H4, [("unequal-allocator branch of moves", "allocator-extended move constructors, operator=(&&)"), ("control block move", "polymorphic*.h direct_control_block::move")], OWN,
  ["element move-constructor calls", "valueless_after_move", "get_allocator"])
p("C08", "Only moving from an object makes it valueless, and it can always recover",
  "An object becomes valueless only by being moved from, by being copied, moved or assigned from a valueless object, or by being swapped with one; every other operation, including any that fails, leaves an engaged object engaged. A valueless object can be copied, moved, swapped, compared, hashed, assigned to and destroyed, propagates valuelessness to copies and moves without allocating, and becomes engaged again when assigned a value.",
  ["histories", "fault_sequences", "configurations"], "Every history interleaving moves with all other operations on valueless and engaged objects, with faults.",
  "Tests exercise single operations on one valueless object; sequences through the valueless state are not explored.",
  H4, [("null checks", "valueless_after_move branches in every operation")], OWN,
  ["valueless_after_move"])
p("C09", "A failing operation throws its cause and leaves no trace",
  "If an allocation, element construction or element copy/move fails during construction or assignment, the original exception reaches the caller, every block and object made on the way is released, and all participating objects keep the same owned object, value and allocator as before (a source being moved from may only be affected by the element's own failed move). In particular the target's old object is not destroyed until its replacement is complete; if the element's own assignment operator throws, only the assigned element's value may be affected.",
  ["fault_sequences", "histories", "configurations"], "Every fault point of every operation from every reachable state of two or more objects; "+GRID+".",
  "Tests throw from one element constructor in a couple of operations; they do not enumerate fault points times trait combinations times prior states.",
  H4, [("construct before release", "assignment operators"), ("try/catch deallocate, rethrow", "construct_from, create_control_block, clone, move")], OWN,
  ["exception identity", "object state after the throw", "allocator ledger"])
p("C10", "Assigning or swapping an object with itself changes nothing",
  "Self copy assignment, self move assignment and self swap, whether direct or through an alias, leave the object's owned object (same address, same value), allocator and valuelessness unchanged and perform no allocation, construction, destruction or element assignment. This holds for engaged and valueless objects and for every allocator configuration.",
  ["configurations", "histories"], "Every reachable object state x all trait combinations x all four headers, including self operations in the middle of histories.",
  "Tests cover a fresh engaged object with the default allocator.",
  H4, [("address comparison at the top of assignment", "operator= in all four headers"), ("swap", "swap")], OWN,
  ["operator*", "allocation and element events"])
p("C11", "Swap exchanges owned objects without touching them",
  "Member and free swap exchange the two owned objects (or valuelessness) by identity: afterwards each object owns exactly what the other owned, no element is constructed, assigned, moved or destroyed and nothing is allocated. Allocators are exchanged exactly when the swap-propagation trait says so, and swapping twice restores the original state.",
  ["histories", "configurations"], "All pairs of engaged/valueless objects with equal (or, when swap propagates, any) allocators in all configurations, both spellings of swap.",
  "Tests swap a few pairs of fresh objects.",
  H4, [("swap", "member and friend swap in all four headers")], OWN, ["addresses", "get_allocator", "element events"])
p("C12", "Assignment into an engaged indirect reuses the owned object where specified",
  "Copy-assigning between engaged indirects with equal allocators, and assigning a plain value to an engaged indirect, assign to the existing owned object: its address stays the same, nothing is allocated, constructed or destroyed, and exactly one element assignment with the right value category happens. Assigning a plain value to a valueless indirect constructs it in storage from the indirect's own allocator, and copy assignment across unequal allocators or into a valueless indirect constructs exactly one new object.",
  ["histories", "configurations", "inputs"], "All engaged/valueless x equal/unequal x propagation combinations, lvalue/const/rvalue arguments, element types distinguishing assignment from construction and copy from move.",
  "Tests check resulting values, rarely whether construction or assignment produced them, and not across configurations.",
  HI, [("in-place assignment", "operator=(const indirect&), operator=(U&&)")], OWN, ["element assignment calls", "addresses", "allocations"])
p("C13", "Comparison of indirects extends the owned type's comparison, valueless least",
  "Every comparison between two indirects (also of different element or allocator types) and between an indirect and a plain value, in either order, gives exactly the result the owned objects' own comparison gives, including for partially ordered values and types with only some operators. A valueless indirect equals only another valueless indirect and orders before every engaged indirect and every value; comparisons never modify or copy the operands and derived operators are mutually consistent.",
  ["inputs", "configurations", "histories"], "All pairs over a value domain with ordered, equal and unordered values plus valueless, all six (and three-way) operators, same and mixed types, both implementations.",
  "Tests check a few literal pairs per operator with int.",
  HI, [("comparison operators", "operator==, <=>, and the six C++14 operators"), ("three-way synthesis", "indirect.h detail::synth_three_way")], OWN, ["comparison results", "element comparison calls"])
p("C14", "Hash agrees with the owned value and with equality",
  "The hash of an engaged indirect equals the owned type's hash of the owned value, regardless of allocator, address or history, so equal indirects always hash equal; hashing a valueless indirect is well defined and constant. Hashing works as a key in unordered containers and does not modify or copy the object.",
  ["inputs", "histories", "configurations"], "All reachable values after any history, with custom std::hash, different allocators and both implementations.",
  "Tests hash one or two fresh ints.",
  HI, [("std::hash specialisation", "end of indirect*.h")], OWN, ["std::hash<indirect>"])
p("C15", "Constness and value category propagate to the owned object",
  "Access through a const indirect or polymorphic gives only const access to the owned object and through a non-const one mutable access, always to the same single object, whatever combination of dereference and arrow is used; dereferencing an rvalue indirect yields an rvalue of matching constness referring to the owned object itself. Accessors never allocate, copy or move and do not throw.",
  ["programs", "inputs", "configurations"], "All combinations of constness and value category of the owner x accessor x implementation, overload-resolution on the owned object's own const/ref-qualified members, and nested owners.",
  "Tests exercise some accessors for value; result types and overloads reached through them are only partly asserted.",
  H4, [("accessors", "operator*, operator-> overload sets")], OWN, ["decltype of access", "selected overload", "address"])
p("C16", "Constructors build exactly the requested object with forwarded arguments",
  "Each constructor (default, value, in-place, initializer-list, each with or without an explicit allocator) constructs one owned object, of the requested type, by a single construction from exactly the given arguments with their value categories and constness preserved, without intermediate copies or moves, in one allocation. Constructors are available exactly when the owned object can be built that way, are explicit as documented, and class template argument deduction picks the argument's type and rebinds the allocator.",
  ["inputs", "programs", "configurations"], "Every constructor form x argument count, value category, constness, initializer-list, allocator form, plus element types that accept anything, and type-trait queries about constructibility.",
  "Tests call each constructor with a literal or two and rarely check how the arguments arrived.",
  H4, [("constructors", "constructor sections of all four headers"), ("constraints", "requires clauses / enable_if")], OWN, ["element constructor log", "type traits"])
p("C17", "C++14/17 and C++20 implementations are observationally equivalent",
  "For every program in their common interface, the C++20 headers and the C++14 headers, compiled under any language standard they support, give the same observable results: values, dynamic types, valuelessness, allocators, owned-object identity, allocation and element-operation events and propagated exceptions. The same holds for optimised and unoptimised builds and both supported compilers.",
  ["programs", "histories", "configurations"], "All common-interface histories run against both implementations, several standards and compilers, with faults.",
  "The tests run per header in isolation; nothing compares the implementations' event histories.",
  H4, [("duplicated implementations kept in sync by hand", "indirect.h vs indirect_cxx14.h, polymorphic.h vs polymorphic_cxx14.h")], OWN, ["full event history and observable state"])
p("C18", "Owned objects are created and destroyed through the allocator's own hooks",
  "Every owned object is constructed by the owner's allocator (rebound to the needed type) via its construct customisation when it has one, and destroyed via its destroy customisation, exactly once each and paired with the same address, so that scoped and polymorphic-resource allocators reach the owned object. Allocator-aware elements therefore always use the allocator of their current owner, after construction, copying and moving alike.",
  ["configurations", "histories"], "All operations that create or destroy owned objects, with allocators with both, one or no hooks, memory-resource allocators, and uses-allocator elements; fancy pointers where supported.",
  "Tests use allocators without hooks, or only check that memory resources are accepted.",
  H4, [("allocator_traits::construct/destroy", "construct_from/destroy_with, direct_control_block")], OWN, ["allocator construct/destroy calls", "element's allocator"])
p("C19", "Constant evaluation gives the same results as run time",
  "In the C++20 implementation every operation of indirect and polymorphic (construction, copy, move, assignment, swap, access, comparison, destruction) is usable in constant evaluation, and yields there the same values, dynamic types and valuelessness as at run time, with all storage released before the evaluation ends. Any history that is well defined at run time is well defined during constant evaluation.",
  ["programs", "histories"], "Histories generated from the specification and evaluated in constant expressions by both compilers.",
  "The compile-time tests evaluate a handful of fixed expressions.",
  ["indirect.h", "polymorphic.h"], [("constexpr members", "all members of indirect.h and polymorphic.h"), ("union storage for constexpr", "polymorphic.h uninitialized_storage")], OWN, ["static_assert of history results"])
p("C20", "Composites and containers of value types are value types themselves",
  "A class, pair, variant, optional or standard container holding indirect or polymorphic members gets correct copy, move, assignment, swap, comparison and destruction from compiler-generated or library operations alone: deep independent copies, cheap identity-preserving moves, no leaks, const propagated through every layer. Growing, erasing, sorting or inserting into containers preserves each element's value and releases everything.",
  ["histories", "programs", "configurations"], "Random and enumerated histories on vectors, maps, optionals, variants and nested members, including failures during container operations.",
  "Tests use a few hand-written container scenarios without tracking identity or faults.",
  H4, [("special members composing", "copy/move/swap of all headers"), ("noexcept moves enabling container moves", "noexcept specifications")], OWN, ["container contents", "ledger"])
p("C21", "Recursive structures work, even when assigning from a part of themselves",
  "Lists, trees and other recursive structures whose nodes own further nodes through indirect or polymorphic can be declared with an incomplete element type and built, deep-copied, moved, compared and destroyed. Move-assigning an owner from an owner nested inside the object it owns, and copy-assigning one from an owner nested inside the object it owns (for an engaged indirect, where it assigns through, with an element whose own assignment allows it), yields the nested value (with allocators per the propagation traits), destroys the rest exactly once and never uses destroyed state or forms a cycle.",
  ["histories", "inputs", "configurations"], "All tree shapes up to a bound x splice/pop/copy operations between any node and its ancestors x allocator configurations x both classes.",
  "No test assigns from inside the assigned-to object.",
  H4, [("read the source completely, destroy the old object last", "assignment operators")], OWN, ["structure after assignment", "ledger"])
p("C22", "No-throw promises are truthful and type queries report them correctly",
  "Destructor, accessors, valuelessness test and allocator access never throw; move construction is declared non-throwing when the allocator is always equal, move assignment when it is always equal or propagates on move, and swap when it is always equal or propagates on swap, and otherwise not promised (except where it cannot fail). An operation declared non-throwing never terminates the program because of a failure inside it. Every other type query answers for the owner what is documented, whatever the element and allocator: the member types are the allocator's, owners are copyable and movable in every form even when only named, are not constructed from an allocator alone, a null or raw pointer or a different owner type, convert to neither pointer nor bool, announce uses_allocator, are comparable and hashable exactly where the element is (polymorphic never), and are one pointer plus the non-empty allocator in size.",
  ["configurations", "fault_sequences"], "All trait combinations x operations x fault points, compared with the compile-time noexcept queries; all element kinds x allocator kinds x queries.",
  "Tests assert noexcept for a few allocators and never inject a failure into a noexcept operation.",
  H4, [("noexcept specifications", "move constructors, operator=(&&), swap, accessors")], OWN, ["noexcept queries", "process termination"])
p("C23", "Tagged and tracking allocators satisfy the allocator contract they exist to show",
  "The repository's tagged allocator keeps its tag through copies and rebinding and two of them compare equal exactly when the tags match; the tracking allocator counts every allocation and deallocation of all its copies and rebinds exactly once and compares equal exactly when both counters are shared. Used with indirect and polymorphic they give consistent counts: allocations minus deallocations equals the number of engaged owners.",
  ["histories", "inputs"], "Every history of owners using these allocators, across rebinding and both classes.",
  "They are only used as helpers inside tests; their own contract is never checked.",
  ["tagged_allocator.h", "tracking_allocator.h"], [("tag/counter copying and equality", "tagged_allocator.h, tracking_allocator.h")], [], ["counters", "tags"])
p("C24", "Operations touch only the objects they name; owners are thread-compatible",
  "An operation on an indirect or polymorphic writes only the owners it changes, the objects they own, storage it obtains itself and arguments passed as rvalues; it reads no other owner or owned object, and const operations (access, copying from, comparison, hashing, queries) write nothing in the object they are applied to. There is no hidden shared state, so operations on distinct owners, and const operations on a shared owner, may run concurrently in any interleaving without synchronisation and have the same outcome as running one after the other.",
  ["schedules", "histories"], "Every pair of operations that change nothing the other names, in every interleaving of their effects, with and without failures, for every allocator-propagation configuration of both classes.",
  "The tests are single-threaded, and hidden shared or mutated state is invisible to them.",
  H4, [("no static or mutable members", "all four headers"), ("const operations", "operator*, operator->, copy constructors, comparisons, hash")], OWN, ["memory accesses of every call", "state after concurrent operations"])
p("C25", "Headers are single includes that combine in any order and any number of units",
  "Each header (both versions of indirect and polymorphic, the feature checks and the two allocators) is self-contained, and any selection of the headers of one version can be included in any order, repeatedly, in any number of translation units of one program (also units compiled in different language modes that the header supports) with the same meaning everywhere: the units link, the helper definitions that the single-include headers duplicate are in sync, so an owner has the same layout in every unit, and an owner made in one unit can be used, copied, moved and destroyed in any other. The feature macros say what the language mode in use really offers.",
  ["configurations", "inputs"], "Every sequence of include lines x every pair of units x every owner and allocator kind (empty, final, stateful), both header versions, both compilers, several language modes.",
  "Each test is one unit including one of the headers first; nothing compares the duplicated helpers (the code has a TODO asking for it) or links several units.",
  H4 + ["feature_check.h", "tagged_allocator.h", "tracking_allocator.h"], [("include guards and duplicated helpers", "XYZ_UNREACHABLE_DEFINED, XYZ_EMPTY_BASE_DEFINED, XYZ_IN_PLACE_DEFINED, detail::empty_base_optimization"), ("feature macros", "feature_check.h")], [], ["compilation and linking", "sizeof/alignof", "owners passed between units"])
p("C26", "Every documented way of consuming the package gives a working library",
  "A project that adds the repository as a subdirectory, or installs it and finds it with find_package, is offered the documented targets, and linking any combination of them gives the consumer the headers, the definitions and at least the language level those targets require (never less than the consumer's own level), so that programs using those headers compile and behave as values. A compatible requested version is found and a later major one is refused. As a subdirectory the library adds no tests and installs nothing, and the project itself can be configured with or without its tests.",
  ["configurations"], "Every way of obtaining the package x every requested version x every set of at most two (deeper run: three) compatible targets x every language level of the consumer.",
  "The tests are part of the project's own build: nothing installs the package, finds it, or links several targets into one consumer.",
  ["CMakeLists.txt", "cmake/xyz_add_library.cmake", "xyz_value_types-config.cmake.in"] + H4, [("targets, installation, exported package", "CMakeLists.txt, xyz_value_types-config.cmake.in"), ("headers installed on their own", "indirect.h, polymorphic.h include no other header of the library")], [], ["configuring, compiling and running consumers"])
p("C27", "The reduced compile database keeps each file's first command, nothing excluded",
  "For every compile database, scripts/reduce_compile_commands.py prints the sub-sequence consisting of the first command of every file that does not lie in (or below) one of the excluded directories, in the original order and with the commands unchanged; with --names-only it prints exactly those files, relative to the project's root. A directory whose name merely begins with the name of an excluded one is not excluded.",
  ["inputs", "configurations"], "Every database of at most four (deeper run: five) commands over files in nested and similarly named directories x every set of excluded directories x both output forms.",
  "The script has no tests, although the static analysis of every change depends on it.",
  ["scripts/reduce_compile_commands.py"], [("selection of the commands", "scripts/reduce_compile_commands.py main")], [], ["the script's output"])
p("C28", "The exploration wrappers are values that own exactly one object each",
  "xyz::wrapper and xyz::constrained_wrapper (exploration/wrapper.h), alone or as alternatives of a variant, own one object each: a default-constructed wrapper owns a new default object, copying (by exactly one copy construction of the element) or assigning gives the target an object of its own equal to the source's and leaves the source alone, a failing element leaves everything as it was, and every object is destroyed exactly once. Wrappers compare equal exactly when their objects do, also for different element types, and constrained_wrapper offers construction, copying, assignment and comparison only for element types that have them.",
  ["histories", "fault_sequences"], "Every history of at most five operations (creation, copy, assignment, self-assignment, destruction, each possibly failing) over two (deeper run: three) wrappers of both kinds, alone and in a variant.",
  "The tests copy and compare one empty object; assignment, failure and lifetime are never exercised.",
  ["exploration/wrapper.h"], [("wrapper and constrained_wrapper", "exploration/wrapper.h")], [], ["element construction and destruction", "operator=="])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
