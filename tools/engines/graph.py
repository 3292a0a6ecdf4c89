"""Replays every transition of the operation-level specification (VTGraph)
through the real code, and compares everything observable."""
import hashlib, itertools, json, os, subprocess
from common import *

NAMES = {1: "default-construct", 2: "value-construct", 3: "copy-construct", 4: "move-construct", 5: "copy-assign",
         6: "move-assign", 7: "value-assign", 8: "swap", 9: "destroy", 10: "write"}


def tag(m, al):
    return 0 if m["cfgv"][4] else (1 if al == 2 else 0)


def classify(m):
    """Which properties does a mismatch contradict?"""
    o, k, s, t = m["o"], m["k"], m["s"], m["t"]
    kind = m["cfgv"][0]
    selfop = t != 0 and s == t and o in (5, 6, 8)
    if o == 4:
        dst = m["al_t"] if m["a"] < 0 else m["a"]
        eq = tag(m, dst) == tag(m, m["al_t"])
    else:
        eq = tag(m, m["al_s"]) == tag(m, m["al_t"])
    src_valueless = t != 0 and m["pre_t"] == 1
    any_valueless = src_valueless or (o in (5, 6, 7, 8, 9) and m["pre_s"] == 1)
    if selfop:
        base = {"C10"}
    elif o in (3, 5):
        base = {"C01"}
    elif o in (4, 6):
        base = {"C06"} if eq else {"C07"}
    elif o == 8:
        base = {"C11"}
    elif o == 7:
        base = {"C12"}
    elif o in (1, 2):
        base = {"C16"}
    elif o == 9:
        base = {"C03"}
    else:
        base = {"C15"}
    if kind == 1 and o == 5 and not selfop:
        base = base | {"C12"}
    if src_valueless and o in (3, 4, 5, 6, 8):
        base = base | {"C08"}
    if any_valueless and o in (5, 6, 7, 8, 9):
        base = base | {"C08"}
    props = set()
    for it in m["items"]:
        c = it["code"]
        p = set()
        if c == "allocator":
            p |= {"C05"}
            if selfop or o == 8:
                p |= base
        elif c == "valueless":
            p |= {"C08"} | base
        elif c in ("type", "dynamic"):
            p |= {"C02"} | (base if o in (2,) else set())
        elif c in ("value", "identity", "exists", "returns-self"):
            p |= base
        elif c.endswith("-tag") or c == "provider":
            p |= {"C04"}
            if o in (3, 4, 5, 6, 8):  # which allocator serves the target is what the traits decide
                p |= {"C05"}
            if o == 7 or (kind == 1 and o == 5):
                p |= {"C12"}
            if o in (4, 6) and not eq:
                p |= {"C07"}
            if c == "hook-tag":
                p |= {"C18"}
        elif c in ("hook-construct", "hook-destroy"):
            p |= {"C18"}
        elif c.startswith(("dealloc-", "destroy-", "leak-")) or c in ("shared", "dangling", "read-dead", "cons-twice", "assign-dead"):
            p |= {"C03"}
            if c in ("shared", "dangling"):
                p |= base
        elif c == "cons-nowhere":
            p |= {"C03", "C04"}
        elif c in ("ev-destroy", "ev-dealloc", "ev-destroy-how"):
            p |= {"C03"} | (base if o not in (5, 6) or selfop else set())
            if o in (5, 6):
                p |= base
        elif c.startswith("ev-"):
            p |= base
        elif c == "order":
            p |= {"C09", "C21"}
        elif c in ("exc", "no-fault-point"):
            p |= {"C09"} | base
        elif c == "argument":
            p |= base
        elif c == "access":
            p |= {"C15"} | ({"C02"} if kind == 2 else set())
        elif c in ("cmp", "cmp-effect"):
            p |= {"C13"}
        elif c in ("hash", "hash-effect"):
            p |= {"C14"}
        elif c.startswith("crash-"):
            p |= base | {"C03"}
            if any_valueless:
                p |= {"C08"}
            if c == "crash-abort" and (noexcept(m) or k):
                p |= {"C22"}
        else:
            p |= base
        if k:
            p |= {"C09"}
        props |= p
    if k == 0 and o in (5, 6) and m["t"] and not selfop and any(i["code"] in ("value", "valueless", "identity", "type") for i in m["items"]):
        pass
    return props


def noexcept(m):
    kind, pocca, pocma, pocs, ae = m["cfgv"][:5]
    o = m["o"]
    if o == 4:
        return ae or (kind == 2 and m["a"] < 0)
    if o == 6:
        return ae or pocma
    if o == 8:
        return ae or pocs
    return o == 9


B = ("TRUE", "FALSE")


def graph_jobs(ctx, kinds, mvs, slots=2, aes=("TRUE", "FALSE"), types="MCTypes", vals="MCVals", split=True):
    """One TLC run per (kind, pocca, pocma, mv): {key: file}"""
    base = spec_text("MCGraph.cfg")
    futs = {}
    for kind, a, b, mv in itertools.product(kinds, B, B, mvs):
        cfg = cfg_set(base, Kinds="{%d}" % kind, Poccas="{%s}" % a, Pocmas="{%s}" % b, Aes="{%s}" % ", ".join(aes),
                      Mvs="{%d}" % mv, NSlots=slots)
        cfg = cfg.replace("Types <- MCTypes", f"Types <- {types}").replace("Vals <- MCVals", f"Vals <- {vals}")
        name = f"g{kind}{a[0]}{b[0]}{mv}s{slots}-{hashlib.sha1(cfg.encode()).hexdigest()[:6]}"
        futs[(kind, a, b, mv)] = ctx.once((name, cfg), tlc, ctx, name, "MCGraph", cfg, 1, (), "3g")
    return futs


def build_jobs(ctx, kinds, vers, mvs=(0,), cxx="clang++", flags=("-O0",), stds=None, vd="true", tagname=""):
    src = os.path.join(HARNESS, "replay.cc")
    futs = {}
    d = ctx.dir("bin")
    for kind, v, a, mv in itertools.product(kinds, vers, (0, 1), mvs):
        for std in (stds or {14: (14,), 20: (20,)})[v]:
            out = os.path.join(d, f"r{kind}_{v}_{std}_{a}_{mv}{tagname}")
            defs = [f"VT_V={v}", f"VT_KIND={kind}", f"VT_POCCA_ONLY={a}", f"VT_MV={mv}", f"VT_VD={vd}"]
            futs[(kind, v, std, a, mv, tagname)] = ctx.once(out, build_one, cxx, std, src, out, defs, flags)
    return futs


def build_one(cxx, std, src, out, defs, flags):
    rc, log = compile_one(cxx, std, src, out, defs, flags)
    if rc == 0:
        return dict(bin=out, log=log, defs=defs, cxx=cxx, std=std, flags=list(flags), assignable=False)
    rc2, log2 = compile_one(cxx, std, src, out, defs + ["VT_ALL_ASSIGNABLE=1"], flags)
    if rc2 == 0:
        return dict(bin=out, log=log, defs=defs + ["VT_ALL_ASSIGNABLE=1"], cxx=cxx, std=std, flags=list(flags), assignable=True)
    return dict(bin=None, log=log, defs=defs, cxx=cxx, std=std, flags=list(flags), assignable=False)


def run_bin(ctx, b, args, timeout=7200):
    cmd = [b["bin"], *args]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("replay timed out: " + " ".join(cmd))
    return p.returncode, p.stdout, p.stderr


def replay_text(b, label, m, types):
    t = "# history printed by spec/VTGraph.tla, last line departs in the real code\n"
    t += f"# build: {b['cxx']} -std=c++{b['std']} {' '.join(b['flags'])} -I/repo -I/verif/harness {' '.join('-D' + d for d in b['defs'])} /verif/harness/replay.cc\n"
    t += f"# run:   ./a.out --seq --variant {m['variant']} --types {types} THIS_FILE\n"
    t += f"# configuration: {m['cfg']}   operation: {m['op']}\n"
    for it in m["items"]:
        t += f"#   {it['code']}: {it['detail']}\n"
    return t + "\n".join(m["hist"]) + "\n"


def run_set(ctx, graphs, bins, types="2,3,4", extra=None, label=""):
    """Walks each binary over its graph files; returns {(kind, ver, std): {signature: count}}"""
    sigs = {}
    futs = []
    for key, fut in bins.items():
        kind, v, std, a, mv, tg = key
        b = fut.result()
        if b["assignable"]:
            ctx.add(Finding({"C05"}, f"{'indirect' if kind == 1 else 'polymorphic'} (C++{v} header) rejects an allocator that need not be assignable",
                            b["log"], key=f"nonassignable-{kind}-{v}"))
        if b["bin"] is None:
            ctx.add(Finding(ALLP, f"a use of {'indirect' if kind == 1 else 'polymorphic'} (C++{v} header, -std=c++{std}) that the specification requires does not compile",
                            b["log"], key=f"compile-{kind}-{v}-{std}"))
            continue
        files = []
        for (gk, ga, gb, gm), gf in graphs.items():
            if gk == kind and (ga == "TRUE") == bool(a) and gm == mv:
                files.append((gf, (gk, ga, gb, gm)))
        futs.append((key, b, ctx.pool.submit(walk_one, ctx, b, files, f"{kind}.{v}.{std}{tg}", types, extra)))
    for key, b, f in futs:
        kind, v, std, a, mv, tg = key
        rows = f.result()
        s = sigs.setdefault((kind, v, std, tg), {})
        done = False
        for r in rows:
            if r.get("mismatch"):
                codes = sorted({i["code"] for i in r["items"]})
                props = classify(r)
                k = f"{r['cfg']}|{r['op']}|{','.join(codes)}"
                s[k] = s.get(k, 0) + 1
                ctx.add(Finding(props, f"{'indirect' if kind == 1 else 'polymorphic'} C++{v} header (-std=c++{std} {b['cxx']}): {r['op']} [{r['cfg']}]: " +
                                "; ".join(f"{i['code']}: {i['detail']}" for i in r["items"][:4]), replay_text(b, "", r, types), key=k))
            elif r.get("summary"):
                ctx.steps += r["steps"]
                ctx.traces += r["histories"]
                ctx.count("edges_replayed", r["covered"])
                ctx.count("edges_in_graphs", r["edges"])
                ctx.count("comparisons_checked", r["comparisons"])
                ctx.count("hashes_checked", r["hashes"])
                ctx.count("configurations_replayed", 1)
            elif r.get("done"):
                done = True
            elif "fatal" in r:
                raise CheckError("replay: " + r["fatal"])
        if not done:
            raise CheckError(f"replay binary of {key} did not finish")
    return sigs


def walk_one(ctx, b, files, label, types, extra):
    paths = []
    for gf, _ in files:
        rc, out = gf.result()
        paths.append(out)
    rc, so, se = run_bin(ctx, b, ["--seed", str(ctx.seed), "--label", label, "--types", types, "--extra", str(extra or 2000), *paths])
    rows = []
    for line in so.splitlines():
        try:
            rows.append(json.loads(line))
        except ValueError:
            raise CheckError("unreadable replay output: " + line[:200] + se[:200])
    if rc != 0:
        raise CheckError(f"replay exited {rc}: {se[:300]}")
    return rows


ALLP = {f"C{i:02d}" for i in range(1, 24)} - {"C19", "C23"}


def finish_graphs(ctx, graphs):
    """The model itself must satisfy every property."""
    for key, f in graphs.items():
        rc, out = f.result()
        if not ctx.first(("counted", out)):
            continue
        gen, dist, tail = tlc_stats(out)
        if rc != 0:
            raise CheckError(f"the specification itself fails (VTGraph {key}): " + "\n".join(tail[-25:]))
        ctx.states += dist
        ctx.transitions += gen
    ctx.count("graphs", len(graphs))


def sample_edges(ctx, graphs, n=3):
    import random
    rnd = random.Random(ctx.seed)
    for key, f in list(graphs.items())[:2]:
        rc, out = f.result()
        with open(out, errors="replace") as fh:
            lines = [l.strip() for l in itertools.islice((x for x in fh if "77001" in x[:8]), 4000)]
        for l in rnd.sample(lines, min(n, len(lines))):
            ctx.sample({"edge": l.strip('"')})


def engine(ctx, kinds=(1, 2), vers=(14, 20), c17=False):
    types = ["2,3,4", "3,4,2", "4,2,3"][ctx.seed % 3]
    graphs = graph_jobs(ctx, kinds, (0,))
    bins = build_jobs(ctx, kinds, vers)
    allsigs = [run_set(ctx, graphs, bins, types)]
    finish_graphs(ctx, graphs)
    sample_edges(ctx, graphs)
    if c17:
        # another compiler, optimisation level and standard for the same histories
        bins = build_jobs(ctx, kinds, (14, 20), cxx="g++", flags=("-O2", "-DNDEBUG"), stds={14: (17, 20), 20: (23,)}, tagname="gccO2")
        allsigs.append(run_set(ctx, graphs, bins, types))
    if ctx.thorough:
        more(ctx, kinds, vers, types, allsigs, graphs)
    return allsigs


def more(ctx, kinds, vers, types, allsigs, graphs):
    # deeper: other element flavours, other standards and compilers, more types, three slots
    for vd in ("false",) if 2 in kinds else ():
        bins = build_jobs(ctx, (2,), vers, vd=vd, tagname="nvd")
        allsigs.append(run_set(ctx, graphs, bins, "3,4,2", 20000))
    bins = build_jobs(ctx, kinds, vers, cxx="g++", flags=("-O1", "-fsanitize=undefined,address", "-fno-sanitize-recover=all"),
                      stds={14: (14, 17), 20: (20,)}, tagname="san")
    allsigs.append(run_set(ctx, graphs, bins, types, 20000))
    bins = build_jobs(ctx, kinds, vers, cxx="clang++", flags=("-O2", "-DNDEBUG"), stds={14: (14, 17, 20), 20: (20, 23)}, tagname="clO2")
    allsigs.append(run_set(ctx, graphs, bins, "4,2,3", 20000))
    g2 = graph_jobs(ctx, kinds, (1, 2), types="MCTypes3")
    bins = build_jobs(ctx, kinds, vers, mvs=(1, 2), tagname="mv")
    allsigs.append(run_set(ctx, g2, bins, "3,4,2", 20000))
    finish_graphs(ctx, g2)
    # three owners: what an operation must leave alone, and chains through a third owner
    g3 = graph_jobs(ctx, kinds, (0,), slots=3, aes=("FALSE",))
    bins = build_jobs(ctx, kinds, vers)
    allsigs.append(run_set(ctx, g3, bins, types))
    finish_graphs(ctx, g3)


def terms(ctx, kinds=(1, 2), vers=(14, 20)):
    """Calls declared noexcept in which the specification has a failure: what does the real code do?"""
    graphs = graph_jobs(ctx, kinds, (0,))
    bins = build_jobs(ctx, kinds, vers)
    futs = []
    for key, fut in bins.items():
        kind, v, std, a, mv, tg = key
        b = fut.result()
        if b["bin"] is None:
            continue  # reported by the main engine
        paths = [gf for (gk, ga, gb, gm), gf in graphs.items() if gk == kind and (ga == "TRUE") == bool(a) and gm == mv]
        futs.append((key, b, ctx.pool.submit(terms_one, ctx, b, paths)))
    finish_graphs(ctx, graphs)
    for key, b, f in futs:
        kind, v, std, a, mv, tg = key
        for r in f.result():
            ctx.count("terminations_run")
            ctx.traces += 1
            ctx.steps += 1
            what = f"{'indirect' if kind == 1 else 'polymorphic'} C++{v} header: {r['op']} fails at {['', 'allocation', 'construction', 'assignment'][r['k']]} [config {r['cfgv']}]"
            text = f"# build: {b['cxx']} -std=c++{b['std']} -I/repo -I/verif/harness {' '.join('-D' + d for d in b['defs'])} /verif/harness/replay.cc\n{json.dumps(r)}\n"
            ctx.sample(r)
            if r["rc"] in (1004, 1005):
                ctx.count("terminations_avoided")
            elif r["rc"] == 6 and r["o"] == 6 and r["cfgv"][2] and not r["cfgv"][4]:
                ctx.add(Finding({"C22"}, what + ": std::terminate", text, key="massign-pocma-rebuild"))
            elif r["rc"] == 1003:
                continue  # the path to it already departs: the main engine reports that
            else:
                ctx.add(Finding({"C22"}, what + f": ends with {r['rc']}", text, key="term-" + r["op"] + str(r["cfgv"])))


def terms_one(ctx, b, futs):
    paths = [f.result()[1] for f in futs]
    rc, so, se = run_bin(ctx, b, ["--terms", "--seed", str(ctx.seed), "--max-terms", "100000" if ctx.thorough else "40", *paths])
    rows = [json.loads(l) for l in so.splitlines()]
    if rc != 0 or not rows or not rows[-1].get("done"):
        raise CheckError(f"terms run failed: {se[:300]}")
    return rows[:-1]
