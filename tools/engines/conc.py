"""C24: two threads.  spec/VTConc.tla shows by exploring every interleaving that operations which stay within what
they name never race; harness/foot.cc records what the real operations touch, and spec/VTFoot.tla judges that."""
import itertools, json, os
from common import *
from engines import traces

CONSTS = dict(NSlots=3, Vals="{1}", Types="{1}")


def build(ctx, name, kind, v, std, flags):
    d = ctx.dir("ft-" + name)
    src = os.path.join(HARNESS, "foot.cc")
    obj, exe, rt = os.path.join(d, "foot.o"), os.path.join(d, "foot"), os.path.join(d, "rt.o")
    rc, log = compile_one("clang++", std, src, obj, [f"VT_V={v}", f"VT_KIND={kind}"], [*flags, "-fsanitize=thread", "-c"])
    if rc != 0:
        return None, log
    for cmd in (["clang++", "-std=c++17", "-O2", "-c", os.path.join(HARNESS, "footrt.cc"), "-o", rt], ["clang++", "-no-pie", "-rdynamic", obj, rt, "-o", exe, "-ldl"]):
        rc, out = sh(cmd)
        if rc != 0:
            raise CheckError("recorder does not build: " + out[:2000])
    return exe, log


def one(ctx, name, kind, v, std, flags, args):
    exe, log = build(ctx, name, kind, v, std, flags)
    res = dict(log=log, crashes=[], rows=[], bad=[], states=0)
    if exe is None:
        return dict(compile=log)
    rows, crash = traces.record(ctx, os.path.dirname(exe), exe, args)
    if rows is None or crash:
        res["crashes"].append(crash)
    recs = [r for r in rows or [] if "done" not in r]
    res["rows"] = recs
    if recs:
        p = os.path.join(os.path.dirname(exe), "foot.ndjson")
        with open(p, "w") as f:
            f.write("".join(json.dumps(r) + "\n" for r in recs))
        bad, judged, dist, tail = traces.judge(ctx, "ft-" + name, "VTFoot", p, consts=CONSTS)
        res["bad"], res["states"] = bad, dist
        if judged != len(recs):
            raise CheckError("VTFoot stopped early: " + "\n".join(tail[-15:]))
    return res


def model(ctx, name, live, nslots, kind, a, b, rule):
    cfg = cfg_set(spec_text("MCConc.cfg"), NSlots=nslots, Live=live, Kinds="{%d}" % kind, Poccas="{%s}" % a, Pocmas="{%s}" % b, Rule=rule)
    return tlc(ctx, name, "MCConc", cfg, workers=1, heap="3g")


def engine(ctx):
    runs = []
    for kind in (1, 2):
        for v in (14, 20):
            for std, flags in (((v, ("-O0",)), (v, ("-O1",)), (20 if v == 14 else 23, ("-O2",))) if ctx.thorough else ((v, ("-O0",)),)):
                name = f"{kind}-{v}-{std}{flags[0]}"
                args = [str(ctx.seed), "8" if ctx.thorough else "2", "3000" if ctx.thorough else "800"]
                runs.append((kind, v, std, flags, ctx.pool.submit(one, ctx, name, kind, v, std, flags, args)))
    models = []
    for kind, a, b in itertools.product((1, 2), ("TRUE", "FALSE"), ("TRUE", "FALSE")):
        if ctx.thorough or a == b:
            models.append(((kind, a, b), ctx.pool.submit(model, ctx, f"conc-{kind}{a[0]}{b[0]}", "{1, 2, 3}", 4, kind, a, b, "TRUE")))
    # without the rule there must be races, or the model would not see any
    norule = ctx.pool.submit(model, ctx, "conc-norule", "{1, 2}", 3, 1, "TRUE", "TRUE", "FALSE")
    seen = set()
    for kind, v, std, flags, f in runs:
        r = f.result()
        who = f"{'indirect' if kind == 1 else 'polymorphic'} C++{v} header (-std=c++{std} clang++ {' '.join(flags)})"
        if "compile" in r:
            ctx.add(Finding({"C24"}, f"{who}: the footprint recorder does not compile", r["compile"][:20000], key="foot-compile"))
            continue
        for c in r["crashes"]:
            ctx.add(Finding({"C24", "C03"}, f"{who}: the program died: {c}", c or "timeout", key="foot-crash"))
        ctx.states += r["states"]
        ctx.transitions += r["states"]
        ctx.traces += 1
        ctx.steps += len(r["rows"])
        ctx.count("footprints_judged", len(r["rows"]))
        for x in r["rows"]:
            if x["o"] == 3 and not x["exc"] and x["st"][x["t"] - 1] == 2 and 10 + x["t"] in x["rd"] and 20 in x["wr"]:
                seen.add((kind, v))
        for x in r["rows"][:2]:
            ctx.sample(x)
        for i in r["bad"][:30]:
            x = r["rows"][i]
            ctx.add(Finding({"C24"}, f"{who}: footprint not allowed by spec/VTFoot.tla: {json.dumps(x)}", f"# {r['log'].splitlines()[0]}\n# classes: 1-3 slots, 11-13 their objects, 20 new storage, 21 argument, 22 storage given back, 23 elsewhere\n{json.dumps(x)}\n",
                            key=f"foot|{kind}|{x['o']}|{x['wr']}|{x['note']}"))
    if len(seen) < 4 and not ctx.findings:
        raise CheckError(f"the recorder sees no accesses: {seen}")
    for key, f in models:
        rc, out = f.result()
        gen, dist, tail = tlc_stats(out)
        if rc != 0:
            raise CheckError(f"the specification itself fails (VTConc {key}): " + "\n".join(tail[-25:]))
        ctx.states += dist
        ctx.transitions += gen
    rc, out = norule.result()
    if "Invariant NoRace is violated" not in open(out, errors="replace").read():
        raise CheckError("VTConc sees no race even without the rule")
    ctx.count("interleaving_models", len(models))
