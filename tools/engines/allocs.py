"""C23: the repository's own allocators (harness/allocs.cc), histories validated by spec/VTAllocs.tla."""
from common import *
from engines import traces

QUICK = ((14, "clang++", 14, ("-O0",)), (20, "g++", 20, ("-O0",)))
SAN = ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment")
DEEP = tuple((v, cxx, std, flags) for v, stds in ((14, (14, 17, 20)), (20, (20, 23))) for std in stds for cxx, flags in (("g++", ("-O2",)), ("clang++", ("-O0",)), ("clang++", SAN)))


def props(rec):
    return {"C23"}


def engine(ctx):
    futs = []
    for n, (v, cxx, std, flags) in enumerate(DEEP if ctx.thorough else QUICK):
        for kind in (1, 2):
            for s in range(6 if ctx.thorough else 2):
                args = [str(ctx.seed * 100 + n * 13 + s * 5 + kind), "40" if ctx.thorough else "12", "150" if ctx.thorough else "90"]
                futs.append((v, cxx, std, flags, kind, ctx.pool.submit(traces.one, ctx, f"allocs{kind}-{n}-{s}", "allocs.cc", [f"VT_V={v}", f"VT_KIND={kind}"], cxx, std, flags, args, "VTAllocs", props, "",
                                                                       None, "Balanced")))
    for v, cxx, std, flags, kind, f in futs:
        who = f"{'TaggedAllocator' if kind == 1 else 'TrackingAllocator'}, C++{v} owners (-std=c++{std} {cxx} {' '.join(flags)})"
        traces.collect(ctx, f, who, "VTAllocs", props, f"{cxx} -std=c++{std} {' '.join(flags)} -DVT_V={v} -DVT_KIND={kind} -I/repo -I/verif/harness /verif/harness/allocs.cc", kindname="allocs")
