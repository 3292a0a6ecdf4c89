"""Long random histories of five owners (harness/trace.cc), validated step by step by spec/VTTrace.tla."""
import json, os, re, subprocess
from common import *
from engines import traces
from engines.graph import NAMES, classify

CODES = {100: "not-enabled", 101: "exc", 102: "allocator", 103: "valueless", 104: "type", 105: "value", 106: "identity", 107: "ev-alloc", 110: "exists"}
CONSTS = dict(NSlots=5, Vals="{1, 2}", Types="{1, 2, 3, 4}")


def build_run(d, src, cxx, std, flags, defs, args):
    """-> (compile log, compiled, rows, crashes): the histories one driver recorded"""
    exe = os.path.join(d, "a.out")
    rc, log = compile_one(cxx, std, os.path.join(HARNESS, src), exe, defs, flags)
    if rc != 0 and src == "trace.cc":
        rc, log2 = compile_one(cxx, std, os.path.join(HARNESS, src), exe, defs + ["VT_ALL_ASSIGNABLE=1"], flags)
    if rc != 0:
        return log, False, [], []
    try:
        p = subprocess.run([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=900)
    except subprocess.TimeoutExpired:
        raise CheckError("history driver timed out")
    rows, crashes, last, done = [], [], None, False
    for l in p.stdout.splitlines():
        try:
            r = json.loads(l)
        except ValueError:
            m = re.search(r'"try":\[([-\d,]+)\]', l)
            last = [int(x) for x in m.group(1).split(",")] if m else None
            continue
        if "crash" in r:
            crashes.append((len(rows), r, last))
        elif "done" in r:
            done = True
        else:
            rows.append(r)
    if not done:
        raise CheckError(f"history driver ended with {p.returncode}: {p.stderr[:300]}")
    return log, True, rows, crashes


def validate(ctx, d, rows):
    """-> (indices of steps spec/VTTrace.tla does not allow, why, states)"""
    if not rows:
        return [], {}, 0
    path = os.path.join(d, "trace.ndjson")
    with open(path, "w") as f:
        f.write("".join(json.dumps(r) + "\n" for r in rows))
    why = {}
    bad, judged, dist, tail = traces.judge(ctx, os.path.basename(d), "VTTrace", path, consts=CONSTS, why=why)
    if judged != len(rows) and not bad:
        raise CheckError("VTTrace stopped early: " + "\n".join(tail[-15:]))
    return bad, why, dist


def one(ctx, name, kind, v, cxx, std, flags, part, mv, vd, seed, hist, length, types):
    d = ctx.dir("ht-" + name)
    defs = [f"VT_V={v}", f"VT_KIND={kind}", f"VT_POCCA_ONLY={part}", f"VT_MV={mv}", f"VT_VD={vd}"]
    log, ok, rows, crashes = build_run(d, "trace.cc", cxx, std, flags, defs, [str(seed), str(hist), str(length), types])
    if not ok:
        return dict(compile=log)
    bad, why, dist = validate(ctx, d, rows)
    return dict(log=log, rows=rows, bad=bad, why=why, crashes=crashes, states=dist)


def before(rows, i):
    lo = i
    while rows[lo]["op"] != "start":
        lo -= 1
    prev = rows[i - 1].get("sl") if i - 1 > lo else [[0] * 5] * 5
    return lo, prev


def facts(cfg, prev, o, k, items):
    s, t = o[1], o[2]
    return dict(o=o[0], s=s, t=t, a=o[3], k=k, cfgv=cfg, pre_s=prev[s - 1][0], pre_t=prev[t - 1][0] if t else 0, al_s=prev[s - 1][1], al_t=prev[t - 1][1] if t else 0,
                items=[dict(code=c) for c in items])


def engine(ctx, kinds=(1, 2), vers=(14, 20)):
    futs = []
    types = ["2,3,4", "3,4,2", "4,2,3"][ctx.seed % 3]
    runs = [(v, "clang++", v, ("-O0",), 0, "true", 1, 60) for v in vers]
    if ctx.thorough:
        runs = [(v, cxx, std, fl, mv, vd, 6, 200) for v in vers for std, cxx, fl, mv, vd in
                ((v, "clang++", ("-O0",), 0, "true"), (v, "g++", ("-O2", "-DNDEBUG"), 1, "true"), (20, "clang++", ("-O2",), 2, "false"), (17 if v == 14 else 23, "g++", ("-O1",), 0, "false"),
                 (v, "clang++", ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), 0, "true"))]
    for n, (v, cxx, std, fl, mv, vd, hist, length) in enumerate(runs):
        for kind in kinds:
            for part in (0, 1):
                futs.append((kind, v, cxx, std, fl, ctx.pool.submit(one, ctx, f"{n}-{kind}-{part}", kind, v, cxx, std, fl, part, mv, vd, ctx.seed * 31 + n, hist, length, types)))
    for kind, v, cxx, std, fl, f in futs:
        r = f.result()
        if "compile" not in r:  # the graph engine reports what does not compile
            report(ctx, kind, f"{'indirect' if kind == 1 else 'polymorphic'} C++{v} header (-std=c++{std} {cxx})", r)


def report(ctx, kind, who, r, extra=()):
    head = f"# {r['log'].splitlines()[0]}\n# history recorded from the real code; the last step is not allowed by spec/VTTrace.tla\n"
    rows = r["rows"]
    ctx.states += r["states"]
    ctx.transitions += r["states"]
    ctx.traces += sum(1 for x in rows if x["op"] == "start")
    ctx.steps += len(rows)
    ctx.count("history_steps_judged", len(rows))
    for x in rows[:2]:
        ctx.sample(x)
    for i in r["bad"][:40]:
        x = rows[i]
        lo, prev = before(rows, i)
        why = sorted(r["why"].get(i, ()))
        props = {f"C{n:02d}" for n in why if n < 100} | classify(facts(rows[lo]["cfg"], prev, x["o"], x["exc"], [CODES[n] for n in why if n in CODES] + x["mm"])) | set(extra)
        ctx.add(Finding(props, f"{who} {rows[lo]['what']}: {NAMES[x['o'][0]]} {x['o']} fault {x['k']} [config {rows[lo]['cfg']}]: step {i - lo} of a history departs: {[CODES.get(n, n) for n in why]} {x['mm']}: slots {x['sl']}",
                        head + "".join(json.dumps(y) + "\n" for y in rows[lo:i + 1]), key=f"trace|{kind}|{rows[lo]['what']}|{x['o'][0]}|{x['k']}|{why}|{x['mm']}"))
    for i, c, last in r["crashes"]:
        lo, prev = before(rows, i - 1) if rows[i - 1]["op"] != "start" else (i - 1, [[0] * 5] * 5)
        prev = rows[i - 1].get("sl", prev)
        props = (classify(facts(c["cfg"], prev, last, last[7], ["crash-" + c["crash"]])) if last else {"C03"}) | set(extra)
        ctx.add(Finding(props, f"{who} {c.get('what', '')}: {NAMES[last[0]] if last else '?'} {last} [config {c['cfg']}]: the program died ({c['crash']})",
                        head + "".join(json.dumps(y) + "\n" for y in rows[lo:i]) + json.dumps(c) + f"\n# while running {last}\n", key=f"trace-crash|{kind}|{c.get('what', '')}|{last}"))
