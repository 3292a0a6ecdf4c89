"""Histories over many element types and allocators (harness/flav.cc), validated step by step by spec/VTTrace.tla."""
from common import *
from engines import trace

ELEM = {(1, 0): "plain and library elements", (1, 1): "element classes", (1, 2): "allocators without construct, empty allocators, std::allocator", (1, 3): "fancy pointers",
        (2, 0): "plain families", (2, 1): "abstract base", (2, 2): "empty allocators, std::allocator"}


def part(ctx, name, p, kind, v, cxx, std, flags, seed, hist, length, deep):
    return trace.build_run(ctx.dir(f"{name}-{p}"), "flav.cc", cxx, std, flags, [f"VT_V={v}", f"VT_KIND={kind}", f"VT_PART={p}", f"VT_DEEP={int(deep)}"], [str(seed), str(hist), str(length)])


def engine(ctx, kinds=(1, 2), vers=(14, 20)):
    runs = [(v, "clang++", v, ("-O0", "-DNDEBUG"), 1, 50) for v in vers]
    if ctx.thorough:
        runs = [(v, cxx, std, fl, 4, 120) for v in vers for cxx, std, fl in (("clang++", v, ("-O0",)), ("g++", v, ("-O2", "-DNDEBUG")), ("g++", 17 if v == 14 else 23, ("-O1",)),
                ("clang++", 20, ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")))]
    builds = []
    for n, (v, cxx, std, fl, hist, length) in enumerate(runs):
        for k in kinds:
            name = f"fl-{k}-{v}-{n}"
            builds.append((name, k, v, cxx, std, [(p, ctx.pool.submit(part, ctx, name, p, k, v, cxx, std, fl, ctx.seed * 17 + n, hist, length, ctx.thorough))
                                                  for kk, p in ELEM if kk == k and (p != 3 or v == 20)]))
    judged = []
    for name, k, v, cxx, std, futs in builds:  # the parts of one build are judged together
        logs, rows, crashes, failed = [], [], [], []
        for p, f in futs:
            log, ok, rr, cc = f.result()
            if not ok:
                failed.append((p, log))
                continue
            logs.append(log)
            crashes += [(i + len(rows), c, last) for i, c, last in cc]
            rows += rr
        judged.append((k, v, cxx, std, dict(log=logs[0] if logs else "-\n", rows=rows, crashes=crashes, failed=failed), ctx.pool.submit(trace.validate, ctx, ctx.dir(name), rows)))
    for k, v, cxx, std, r, f in judged:
        r["bad"], r["why"], r["states"] = f.result()
        who = f"{'indirect' if k == 1 else 'polymorphic'} C++{v} header (-std=c++{std} {cxx})"
        for p, log in r["failed"]:
            ctx.add(Finding({"C17"} | ({"C12"} if (k, p) == (1, 1) else set()), f"{who}: does not compile for {ELEM[(k, p)]}", log[:20000], key=f"flav-compile|{k}|{v}|{p}"))
        for i in r["bad"]:  # a silent element is seen through construct and destroy alone
            lo, _ = trace.before(rows_ := r["rows"], i)
            if rows_[lo]["mask"] == [1, 2, 3, 4] and (set(r["why"].get(i, ())) & {3} or any(c in ("dealloc-live", "leak-object", "dangling", "cons-twice") for c in rows_[i]["mm"])):
                r["why"].setdefault(i, set()).add(18)
        trace.report(ctx, k, who, r, extra={"C17"})
