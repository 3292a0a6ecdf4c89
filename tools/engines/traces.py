"""Histories recorded from the real code (one JSON record per step), validated by a TLA+ trace specification."""
import json, os, re, subprocess
from common import *


def judge(ctx, name, module, path, heap="3g", consts=None, inv=None, why=None):
    """-> (indices of records not allowed, number judged, distinct states, tail when TLC stopped early)"""
    cfg = 'CONSTANTS\n FactsFile = "%s"\n%sSPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n' % (path, "".join(f" {k} = {v}\n" for k, v in (consts or {}).items()), f"INVARIANT {inv}\n" if inv else "")
    rc, out = tlc(ctx, name, module, cfg, heap=heap)
    bad, judged = [], None
    with open(out, errors="replace") as f:
        for l in f:
            m = re.match(r'"?<<(7710\d), (\d+)(?:, (\d+))?>>', l)
            if m and m.group(1) == "77100":
                bad.append(int(m.group(2)) - 1)
            elif m and m.group(1) == "77101":
                judged = int(m.group(2))
            elif m and m.group(1) == "77103" and why is not None:
                why.setdefault(int(m.group(2)) - 1, set()).add(int(m.group(3)))
    gen, dist, tail = tlc_stats(out)
    return bad, judged, dist, tail if rc != 0 else []


def record(ctx, d, exe, args, timeout=600):
    try:
        p = subprocess.run([exe, *args], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "does not terminate"
    rows, crash = [], None
    done = False
    for l in p.stdout.splitlines():
        try:
            r = json.loads(l)
        except ValueError:
            continue
        if "done" in r:
            done = True
        rows.append(r)
    if not done:
        crash = f"exit {p.returncode}: {p.stderr[:300]}"
    return rows, crash


def one(ctx, name, src, defs, cxx, std, flags, args, module, props_of, label, consts=None, inv=None):
    d = ctx.dir("tr-" + name)
    exe = os.path.join(d, "a.out")
    key = ("bin", src, tuple(defs), cxx, std, tuple(flags))
    rc, log = compile_one(cxx, std, os.path.join(HARNESS, src), exe, defs, flags)
    if rc != 0:
        return dict(compile=log)
    rows, crash = record(ctx, d, exe, args)
    res = dict(log=log, crashes=[], rows=[], bad=[], states=0)
    if rows is None or crash:
        res["crashes"].append(crash)
        rows = rows or []
    recs = []
    for r in rows:
        if "crash" in r:
            res["crashes"].append(f"{r['crash']} in {json.dumps(r)} after {json.dumps(recs[-1])[:400] if recs else 'nothing'}")
        elif "done" not in r:
            recs.append(r)
    res["rows"] = recs
    if recs:
        p = os.path.join(d, "trace.ndjson")
        with open(p, "w") as f:
            f.write("".join(json.dumps(r) + "\n" for r in recs))
        bad, judged, dist, tail = judge(ctx, os.path.basename(d), module, p, consts=consts, inv=inv)
        res["bad"], res["states"] = bad, dist
        if judged != len(recs) and not bad:
            raise CheckError(f"{module} stopped early on {name}: " + "\n".join(tail[-15:]))
    return res


def collect(ctx, f, who, module, props_of, build, start="start", kindname="trace"):
    r = f.result()
    if "compile" in r:
        ctx.add(Finding(props_of(None), f"{who}: a use required by the specification does not compile", r["compile"][:20000], key=f"{kindname}-compile-{who}"))
        return
    for c in r["crashes"]:
        ctx.add(Finding(props_of(None) | {"C03"}, f"{who}: the program died: {c[:600]}", "# " + build + "\n" + c + "\n", key=f"{kindname}-crash-{who}"))
    ctx.states += r["states"]
    ctx.transitions += r["states"]
    ctx.traces += sum(1 for x in r["rows"] if x.get("op") == start)
    ctx.steps += len(r["rows"])
    ctx.count(kindname + "_records_judged", len(r["rows"]))
    for x in r["rows"][:1] + r["rows"][len(r["rows"]) // 2:][:2]:
        ctx.sample(x)
    for i in r["bad"][:40]:
        rec = r["rows"][i]
        lo = i
        while lo > 0 and r["rows"][lo].get("op") != start:
            lo -= 1
        ctx.add(Finding(props_of(rec), f"{who}: not allowed by spec/{module}.tla: {json.dumps(rec)[:500]}",
                        f"# {r['log'].splitlines()[0]}\n# history from its start; the last record is not allowed\n" + "".join(json.dumps(x) + "\n" for x in r["rows"][lo:i + 1]),
                        key=f"{kindname}|" + json.dumps({k: rec.get(k) for k in ('impl', 'kind', 'box', 'ae', 'op', 'flt')})))
