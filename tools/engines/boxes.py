"""C20: containers and composites of owners (harness/boxes.cc), histories validated by spec/VTBoxes.tla."""
from common import *
from engines import traces

QUICK = ((14, "clang++", 14, ("-O0",)), (14, "g++", 17, ("-O0",)), (20, "clang++", 20, ("-O0",)))
DEEP = ((14, "clang++", 14, ("-O0",)), (14, "g++", 17, ("-O2",)), (14, "clang++", 20, ("-O1",)), (20, "clang++", 20, ("-O1",)), (20, "g++", 20, ("-O2",)), (20, "g++", 23, ("-O0",)),
        (14, "g++", 14, ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")),
        (20, "clang++", 20, ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")))


def props(rec):
    p = {"C20"}
    if rec and (rec.get("errs") or rec.get("op") == "end"):
        p.add("C03")
    return p


def engine(ctx, kinds=(1, 2)):
    futs = []
    for n, (v, cxx, std, flags) in enumerate(DEEP if ctx.thorough else QUICK):
        for kind in kinds:
            for s in range(12 if ctx.thorough else 1):
                args = [str(ctx.seed * 100 + n * 17 + s), "30" if ctx.thorough else "5", "90" if ctx.thorough else "70"]
                futs.append((v, cxx, std, flags, kind, ctx.pool.submit(traces.one, ctx, f"boxes{kind}-{n}-{s}", "boxes.cc", [f"VT_V={v}", f"VT_KIND={kind}"], cxx, std, flags, args, "VTBoxes", props, "")))
    for v, cxx, std, flags, kind, f in futs:
        who = f"containers of {'indirect' if kind == 1 else 'polymorphic'}, C++{v} header (-std=c++{std} {cxx} {' '.join(flags)})"
        traces.collect(ctx, f, who, "VTBoxes", props, f"{cxx} -std=c++{std} {' '.join(flags)} -DVT_V={v} -DVT_KIND={kind} -I/repo -I/verif/harness /verif/harness/boxes.cc", kindname="boxes")
