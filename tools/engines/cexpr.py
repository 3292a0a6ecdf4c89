"""C19: histories of spec/VTGraph.tla executed during constant evaluation (harness/cexpr.cc)."""
import itertools, json, os, random, re
from common import *
from engines.graph import graph_jobs, finish_graphs

CODES = ["", "existence", "allocator", "valuelessness", "dynamic type", "value", "identity of the owned object", "a new object expected", "how the object was built",
         "assignments of the owned object", "argument afterwards", "assignment does not return *this", "accessors disagree", "comparison"]
NAMES = {1: "default-construct", 2: "value-construct", 3: "copy-construct", 4: "move-construct", 5: "copy-assign",
         6: "move-assign", 7: "value-assign", 8: "swap", 9: "destroy", 10: "write"}
EvC, EvG = 2, 5


def load(path):
    """{(pocca,pocma,pocs,ae,sel): [(pre, op, post, text)]} of the transitions without failures"""
    res = {}
    with open(path, errors="replace") as f:
        for l in f:
            if "<<77001" not in l[:9]:
                continue
            v = [int(x) for x in re.findall(r"-?\d+", l)]
            cfg = tuple(v[2:7])
            ns = v[8]
            i = 9
            pre = tuple(v[i:i + 4 * ns]); i += 4 * ns
            op = v[i:i + 7]; k, exc = v[i + 7], v[i + 8]; i += 9
            if k:
                continue
            post = tuple(v[i:i + 4 * ns]); i += 4 * ns
            orig = v[i:i + ns]; i += ns
            n = v[i]; i += 1
            evs = [v[i + 4 * j:i + 4 * j + 4] for j in range(n)]
            how = {}
            for e in evs:
                if e[0] in (EvC, EvG):
                    how[e[1]] = e[2]
            row = list(op)
            for s in range(ns):
                row += list(post[4 * s:4 * s + 4]) + [orig[s], how.get(orig[s], 0) if orig[s] else 0]
            res.setdefault(cfg, []).append((pre, row, post, l.strip().strip('"')))
    return res


def walks(edges, rnd, limit, length):
    """random walks from the empty state that cover `limit` transitions (all when they are fewer)"""
    out = {}
    for i, e in enumerate(edges):
        out.setdefault(e[0], []).append(i)
    empty = tuple([0] * len(edges[0][0]))
    # shortest way from everywhere to anywhere: BFS tree from each state on demand
    todo = {s: rnd.sample(v, len(v)) for s, v in out.items()}
    left = min(limit, len(edges))
    done = [False] * len(edges)
    res, cur, at = [], [], empty
    while left > 0:
        q = todo.get(at, [])
        while q and done[q[-1]]:
            q.pop()
        if q:
            path = [q.pop()]
        else:  # the nearest state that has something left
            seen, front, path = {at: None}, [at], None
            while front and path is None:
                nxt = []
                for s in front:
                    for i in out.get(s, []):
                        t = edges[i][2]
                        if t in seen:
                            continue
                        seen[t] = (s, i)
                        while todo.get(t) and done[todo[t][-1]]:
                            todo[t].pop()
                        if todo.get(t):
                            path = []
                            while seen[t]:
                                path.append(seen[t][1])
                                t = seen[t][0]
                            path.reverse()
                            break
                        nxt.append(t)
                    if path is not None:
                        break
                front = nxt
            if path is None:
                break
        for i in path:
            cur.append(i)
            if not done[i]:
                done[i] = True
                left -= 1
            at = edges[i][2]
        if len(cur) >= length:
            res.append(cur)
            cur, at = [], empty
    if cur:
        res.append(cur)
    return res, sum(done)


def unit(ctx, name, kind, d2, parts, cxx, std, flags):
    d = ctx.dir("cx-" + name)
    text, macro, table = "", "#define VT_WALKS(X)", {}
    for cfg, edges, ws in parts:
        for j, w in enumerate(ws):
            nm = f"w{''.join(map(str, cfg))}_{j}"
            text += f"constexpr signed char {nm}[] = {{{','.join(str(x) for i in w for x in edges[i][1])}}};\n"
            macro += f" X({nm}, {', '.join('true' if b else 'false' for b in cfg)})"
            table[nm] = (cfg, edges, w)
    inc = os.path.join(d, "walks.h")
    with open(inc, "w") as f:
        f.write(text + macro + "\n")
    exe = os.path.join(d, "a.out")
    lim = ("-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=100000000") if "g++" == cxx else ("-fconstexpr-steps=2000000000",)
    rc, log = compile_one(cxx, std, os.path.join(HARNESS, "cexpr.cc"), exe, [f"VT_KIND={kind}", f"VT_D2={d2}"], (*flags, *lim, "-include", inc), timeout=800)
    return rc, log, exe, table


def text_of(table, nm, upto, head):
    cfg, edges, w = table[nm]
    return head + "".join(f"# {NAMES[edges[i][1][0]]} {edges[i][1][1:7]}\n{edges[i][3]}\n" for i in w[:upto + 1])


def engine(ctx, kinds=(1, 2)):
    rnd = random.Random(ctx.seed * 7919 + 19)
    graphs = graph_jobs(ctx, kinds, (0,))
    finish_graphs(ctx, graphs)
    futs = []
    limit = 100000 if ctx.thorough else LIMIT
    for (kind, a, b, mv), f in graphs.items():
        es = load(f.result()[1])
        parts = []
        for cfg, edges in sorted(es.items()):
            ws, cov = walks(edges, rnd, limit, 150)
            ctx.count("edges_in_graphs", len(edges))
            ctx.count("edges_in_constant_evaluation", cov)
            parts.append((cfg, edges, ws))
        # the transitions of a (pocca, pocma) pair, split over compilers
        vs = [("g++", 20, ("-O0",)), ("clang++", 20, ("-O0",))]
        if ctx.thorough:
            vs += [("g++", 23, ("-O1",)), ("clang++", 23, ("-O1",))]
            jobs = [(v, [p]) for v in vs for p in parts]
        else:
            jobs = [(v, parts[i::2]) for i, v in enumerate(vs)] if ctx.seed % 2 else [(v, parts[1 - i::2]) for i, v in enumerate(vs)]
        for n, ((cxx, std, flags), ps) in enumerate(jobs):
            d2 = (n + ctx.seed) % 2
            futs.append((kind, cxx, std, d2, ctx.pool.submit(unit, ctx, f"{kind}{a[0]}{b[0]}-{n}", kind, d2, ps, cxx, std, flags)))
    for kind, cxx, std, d2, f in futs:
        rc, log, exe, table = f.result()
        who = f"{'indirect' if kind == 1 else 'polymorphic'} ({cxx} -std=c++{std})"
        head = f"# build: {log.splitlines()[0][:300]}\n"
        if rc != 0:
            m = re.search(r"res_(w\d+_\d+)", log)
            err = next((l for l in log.splitlines() if "error" in l or "note: non-constexpr" in l), log[:300])
            ctx.add(Finding({"C19"}, f"{who}: a history the specification allows is not a constant expression: {err[-300:]}",
                            head + log[:30000] + (text_of(table, m.group(1), 10 ** 6, "") if m else ""), key=f"cx-compile-{kind}-{cxx}"))
            continue
        try:
            rc, out = sh([exe], timeout=300)
        except subprocess.TimeoutExpired:
            raise CheckError("constant evaluation driver timed out")
        done = False
        for l in out.splitlines():
            try:
                r = json.loads(l)
            except ValueError:
                continue
            if r.get("done"):
                done = True
            if "walk" not in r:
                continue
            ctx.traces += 1
            ctx.steps += 2 * r["steps"]
            ctx.count("constant_evaluations")
            cfg, edges, w = table[r["walk"]]
            if len(ctx.samples) < 6:
                ctx.sample(dict(who=who, configuration=cfg, calls=[[NAMES[edges[i][1][0]], *edges[i][1][1:7]] for i in w[:12]], length=len(w), constant_evaluation=r["ct"], run_time=r["rt"]))
            for when, x in (("constant evaluation", r["ct"]), ("run time", r["rt"])):
                if not x[1]:
                    continue
                e = edges[w[x[0]]]
                props = {"C19"} if when == "constant evaluation" or r["ct"] != r["rt"] else set()
                what = f"{who}: in {when}: {NAMES[e[1][0]]} slot{e[1][1]} <- slot{e[1][2]} [{dict(zip(('pocca', 'pocma', 'pocs', 'ae', 'sel'), cfg))}]: {CODES[x[1]]} is {x[2]}, should be {x[3]}"
                ctx.add(Finding(props, what, text_of(table, r["walk"], x[0], head), key=f"cx|{kind}|{when}|{cfg}|{e[1][:7]}|{x[1]}"))
        if not done:
            ctx.add(Finding({"C19"}, f"{who}: the histories evaluated at compile time crash at run time (exit {rc})", head + out[-2000:], key=f"cx-crash-{kind}-{cxx}"))


LIMIT = 1200
