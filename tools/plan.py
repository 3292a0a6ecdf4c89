"""Which engines decide which property."""
from engines import allocs, boxes, cexpr, conc, facts, flav, graph, micro, package, reduce, trace, tree, units, wrap

ASSUMPTIONS = [
    "TLC, the JVM, the compilers and the C++ standard library are trusted",
    "small scope: two owners (three in deeper runs), two values, allocators with three identities and two equality classes",
    "the instrumented elements and allocators report every construction, assignment, destruction, allocation and deallocation",
]


def engines(ctx):
    p = ctx.prop
    if p in ("C02",):
        kinds = (2,)
    elif p in ("C12", "C13", "C14"):
        kinds = (1,)
    else:
        kinds = (1, 2)
    out = []
    if p not in ("C19", "C20", "C21", "C23", "C24", "C25", "C26", "C27", "C28") or (p == "C21" and ctx.thorough):
        out.append(("graph", lambda c: graph.engine(c, kinds, c17=p == "C17")))
    if p in ("C03", "C04", "C09", "C22") and ctx.thorough:
        out.append(("instruction-level model", micro.engine))
    if p in TRACE:
        out.append(("histories", lambda c: trace.engine(c, kinds)))
    if p in TRACE + ("C17", "C18"):
        out.append(("flavours", lambda c: flav.engine(c, kinds)))
    if p == "C22":
        out.append(("terminations", graph.terms))
    if p == "C19":
        out.append(("constant-evaluation", cexpr.engine))
    if p == "C24":
        out.append(("threads", conc.engine))
    if p == "C23":
        out.append(("allocs", allocs.engine))
    if p == "C25":
        out.append(("units", units.engine))
    if p == "C26":
        out.append(("package", package.engine))
    if p == "C27":
        out.append(("reduce", reduce.engine))
    if p == "C28":
        out.append(("wrappers", wrap.engine))
    if p == "C20":
        out.append(("boxes", boxes.engine))
    if p in TREE:
        out.append(("tree", lambda c: tree.engine(c, (2,) if p == "C02" else (1, 2), None if p == "C21" or c.thorough else 3)))
    names = FACTS.get(p, ())
    if names:
        out.append(("facts", lambda c: facts.engine(c, names, c17=p == "C17")))
    return out


TRACE = tuple(f"C{i:02d}" for i in range(1, 14)) + ("C16",)
TREE = ("C01", "C02", "C03", "C04", "C05", "C09", "C21")
FACTS = {"C13": ("cmp", "types"), "C14": ("hash", "types"), "C15": ("access",), "C16": ("cons", "value"), "C12": ("cons", "value"), "C18": ("hooks",), "C22": ("traits", "types"),
         "C20": ("access",), "C21": ("decl",), "C17": ("traits", "access", "cmp", "hash", "cons", "value", "hooks", "decl", "types")}


GRAPH = ("TLC enumerates the operation-level TLA+ state graph; every transition is replayed through the real headers",
         "Exhaustive within the model's bounds: each transition (with and without a failure injected) of each allocator-trait configuration is executed in the real code and all observable effects are compared; trusts TLC, the compilers and the instrumented elements and allocators.")
FACTS_T = ("TLC enumerates the operation-level TLA+ state graph, replayed through the real headers; facts recorded from the real code are judged by a TLA+ specification",
           "Exhaustive within the model's bounds; every recorded fact (typed inputs, containers, allocators) is judged by TLC against spec/VTFacts.tla; trusts TLC, the compilers and the instrumented elements and allocators.")
CLAIMED = {f"C{i:02d}": GRAPH for i in list(range(1, 12))}
CLAIMED.update({f"C{i:02d}": FACTS_T for i in (12, 13, 14, 15, 16, 17, 18, 22)})
CLAIMED["C21"] = ("TLC enumerates a TLA+ specification of recursive structures; every transition is replayed through the real headers",
                  "Exhaustive over all pairs of structures with at most four owners (five in the deeper run), every operation between any owner and its parts, allocator assignments and injected failures; trusts TLC, the compilers and the instrumented node.")
CLAIMED["C19"] = ("histories covering TLC's operation-level state graph are evaluated as constant expressions, compared step by step with the TLA+ specification and with the run-time result",
                  "Both compilers must accept every sampled (deeper run: every) failure-free transition of every allocator-trait configuration inside histories as a constant expression with the specified results and no storage left; virtual bases and failures cannot occur in constant evaluation.")
CLAIMED["C20"] = ("random histories of containers and composites of owners are recorded from the real code and validated by a TLA+ trace specification",
                  "Every recorded step (13 container and composite types, faults included) is judged by TLC against spec/VTBoxes.tla; sampled histories; trusts TLC, the compilers, the standard library and the instrumented elements.")
CLAIMED["C23"] = ("random histories of the repository's allocators, storage and owners are recorded from the real code and validated by a TLA+ trace specification",
                  "Every recorded step (copies, rebinding, assignment, storage, construction, owners of both classes, failing allocations and elements) is judged by TLC against spec/VTAllocs.tla; sampled histories; trusts TLC, the compilers and the replaced global operator new.")
CLAIMED["C24"] = ("TLC explores every interleaving of two operations instruction by instruction; memory footprints recorded from the real code are judged by a TLA+ specification",
                  "All pairs of operations on three owners, all interleavings, with failures, in spec/VTConc.tla (race freedom and serial outcome follow from the footprint rule); every access of the compiled code (clang's thread-sanitizer instrumentation, own runtime) in random histories is judged by TLC against spec/VTFoot.tla; assumes the allocator itself is thread safe.")
CLAIMED["C25"] = ("TLC enumerates translation units of a TLA+ specification; each is compiled from the real headers, all are linked and exchange owners, and the recorded facts are judged by the specification",
                  "Exhaustive over sequences of at most two (deeper run: three) include lines; every owner type made in one unit is used in every other; facts judged by TLC against spec/VTUnits.tla; trusts TLC, the compilers and the linker.")
CLAIMED["C26"] = ("TLC enumerates the consumers of a TLA+ specification of the package; each is configured, compiled and run against the real build files and headers, and the recorded facts are judged by the specification",
                  "Exhaustive over ways of obtaining the package, versions and sets of at most two (deeper run: three) targets; language levels rotate with the seed (deeper run: all); trusts TLC, CMake and the compilers.")
CLAIMED["C27"] = ("TLC enumerates the compile databases of a TLA+ specification; every one is run through the real script and its output compared with the specification's",
                  "Exhaustive over databases of at most four (deeper run: five) commands and every set of excluded directories; trusts TLC and Python.")
CLAIMED["C28"] = ("TLC enumerates the histories of a TLA+ specification; every one is replayed on the real wrappers under the address sanitizer",
                  "Exhaustive over histories of five operations on two (deeper run: three) wrappers, with element failures; trusts TLC, the compilers and the instrumented element.")
NOT_CLAIMED = {}
