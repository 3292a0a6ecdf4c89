"""Recursive structures (spec/VTTree.tla), every transition replayed through the real headers (harness/tree.cc)."""
import itertools, json, os, re
from common import *
from engines.graph import build_one, run_bin

# configuration masks (1 pocca, 2 pocma, 4 pocs, 8 always-equal, 16 select); compiled into harness/tree.cc
QUICK = (0, 5, 6, 23, 8)
ALL = (0, 2, 5, 6, 7, 8, 17, 23, 31)


def classify(m):
    props = {"C21"}
    for it in m["items"]:
        c = it["code"]
        if c.startswith(("leak-", "crash-", "dealloc-", "destroy-", "read-dead", "assign-dead", "cons-twice", "dangling", "shared")):
            props |= {"C03"}
        if c == "provider" or c.endswith("-tag") or c == "cons-nowhere":
            props |= {"C04"}
        if c == "allocator":
            props |= {"C05"}
        if c == "type":
            props |= {"C02"}
        if c == "cmp":
            props |= {"C13"}
    if m["k"]:
        props |= {"C09"}
    elif m["o"] == 3:
        props |= {"C01"}
    return props


def graphs(ctx, kinds, masks, nmax, maxfault):
    base = spec_text("VTTree.cfg")
    B = lambda m, b: "TRUE" if m & b else "FALSE"
    res = {}
    for m in masks:
        for kind in kinds:
            cfg = cfg_set(base, Kind=kind, Pocca=B(m, 1), Pocma=B(m, 2), Pocs=B(m, 4), Ae=B(m, 8), Sel=B(m, 16), NMax=nmax, MaxFault=maxfault)
            name = f"tree{kind}-{m}-{nmax}"
            res[(kind, m)] = ctx.once(name, tlc, ctx, name, "VTTree", cfg, 1, (), "3g")
    return res


def engine(ctx, kinds=(1, 2), nmax=None):
    masks = ALL if ctx.thorough else QUICK
    nmax = nmax or (5 if ctx.thorough else 4)
    builds = {}
    d = ctx.dir("treebin")
    variants = [("clang++", 14, 14, ("-O0",), ""), ("clang++", 20, 20, ("-O0",), "")]
    if ctx.thorough:
        variants = [("g++", 14, 14, ("-O1",), "o1"), ("g++", 20, 20, ("-O1",), "o1"),
                    ("clang++", 14, 17, ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), "san"),
                    ("clang++", 20, 20, ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), "san")]
    for cxx, v, std, flags, tg in variants:
        for kind in kinds:
            builds[(kind, v, tg)] = ctx.pool.submit(build_one, cxx, std, os.path.join(HARNESS, "tree.cc"), os.path.join(d, f"t{kind}_{v}{tg}"),
                                                    [f"VT_V={v}", f"VT_KIND={kind}"], flags)
    g = graphs(ctx, kinds, masks, nmax, 2 if nmax < 5 else 3)
    small = graphs(ctx, kinds, masks, 4, 2) if ctx.thorough else g
    futs = []
    for (kind, v, tg), bf in builds.items():
        b = bf.result()
        if b["bin"] is None:
            ctx.add(Finding({"C21", "C17"}, f"a recursive structure of {'indirect' if kind == 1 else 'polymorphic'} (C++{v} header) does not compile", b["log"][:20000], key=f"tree-compile-{kind}-{v}"))
            continue
        for m in masks:
            gf = (small if tg == "san" else g)[(kind, m)]
            futs.append((kind, v, tg, m, b, gf))
    for gs in (g, small) if small is not g else (g,):
        for key, f in gs.items():
            rc, out = f.result()
            gen, dist, tail = tlc_stats(out)
            if rc != 0:
                raise CheckError(f"the specification itself fails (VTTree {key}): " + "\n".join(tail[-25:]))
            ctx.states += dist
            ctx.transitions += gen
    runs = [(x, ctx.pool.submit(run_bin, ctx, x[4], ["--seed", str(ctx.seed), x[5].result()[1]], 3000)) for x in futs]
    for (kind, v, tg, m, b, gf), f in runs:
        rc, so, se = f.result()
        done = False
        for line in so.splitlines():
            r = json.loads(line)
            if r.get("mismatch"):
                cfg = "pocca pocma pocs ae sel".split()
                cs = ",".join(n for n, x in zip(cfg, r["cfg"][1:]) if x) or "none"
                codes = ",".join(sorted({i["code"] for i in r["items"]}))
                t = "# history printed by spec/VTTree.tla (pre-order: allocator, node, value, children), last line departs in the real code\n"
                t += f"# build: {b['cxx']} -std=c++{b['std']} {' '.join(b['flags'])} -I/repo -I/verif/harness {' '.join('-D' + x for x in b['defs'])} /verif/harness/tree.cc\n"
                t += f"# run:   ./a.out --one THIS_FILE\n# operation: {r['op']}\n" + "".join(f"#   {i['code']}: {i['detail']}\n" for i in r["items"]) + "\n".join(r["hist"]) + "\n"
                ctx.add(Finding(classify(r), f"recursive {'indirect' if kind == 1 else 'polymorphic'} C++{v} header ({b['cxx']} -std=c++{b['std']}): {r['op']} [{cs}]: " +
                                "; ".join(f"{i['code']}: {i['detail']}" for i in r["items"][:4]), t, key=f"tree|{kind}|{v}|{cs}|{r['op']}|{codes}"))
            elif r.get("summary"):
                ctx.steps += r["steps"]
                ctx.traces += r["builds"]
                ctx.count("tree_edges_replayed", r["covered"])
                ctx.count("tree_edges_in_graphs", r["edges"])
            elif r.get("done"):
                done = True
            elif "fatal" in r:
                raise CheckError("tree: " + r["fatal"])
        if not done:
            raise CheckError(f"tree replay {kind} {v} {m} did not finish: {rc} {se[:300]}")
    for key, f in list(g.items())[:2]:
        with open(f.result()[1], errors="replace") as fh:
            for l in itertools.islice((x for x in fh if "<<77200" in x[:9]), 500, 4000, 1500):
                ctx.sample({"tree": l.strip().strip('"')})

