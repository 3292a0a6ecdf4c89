"""C27: every compile database enumerated by spec/VTReduce.tla is run through scripts/reduce_compile_commands.py."""
import json, os, re
from common import *

INV = "".join(f"INVARIANT {i}\n" for i in ("OnePerFile", "EveryFile", "NoneExcluded", "First", "InOrder", "Show"))


def strings(s):
    return re.findall(r'"([^"]*)"', s)


PATH = strings(re.search(r"Path == <<(.*)>>", spec_text("VTReduce.tla")).group(1))


def engine(ctx):
    script = os.path.join(REPO, "scripts", "reduce_compile_commands.py")
    rc, out = tlc(ctx, "reduce", "VTReduce", f"CONSTANTS\n MaxLen = {5 if ctx.thorough else 4}\nSPECIFICATION Spec\n{INV}CHECK_DEADLOCK FALSE\n")
    gen, dist, tail = tlc_stats(out)
    if rc != 0:
        raise CheckError("VTReduce: " + "\n".join(tail[-15:]))
    cases = []
    with open(out, errors="replace") as f:
        for l in f:
            m = re.match(r"<<77200, \{(.*)\}, <<(.*)>>, <<(.*)>>>>", l)
            if m:
                cases.append(dict(excl=sorted(strings(m.group(1))), db=[PATH[int(x) - 1] for x in m.group(2).split(",") if x.strip()], kept=[int(x) for x in m.group(3).split(",") if x.strip()]))
    if len(cases) != dist:
        raise CheckError(f"VTReduce: {len(cases)} of {dist} databases read")
    # how a directory is written on the command line does not matter
    for n, c in enumerate(cases):
        c["excl"] = [d + "/" if (n + k + ctx.seed) % 5 == 0 else d for k, d in enumerate(c["excl"])]
    n = (len(cases) + JOBS - 1) // JOBS
    parts = [cases[k:k + n] for k in range(0, len(cases), n)]

    def run(k):
        path = os.path.join(ctx.dir("reduce"), f"cases{k}.ndjson")
        with open(path, "w") as f:
            f.write("".join(json.dumps(c) + "\n" for c in parts[k]))
        return sh([sys.executable, os.path.join(HARNESS, "reduce_run.py"), script, path], timeout=1200)
    ctx.states += dist
    ctx.transitions += gen
    for part, f in [(parts[k], ctx.pool.submit(run, k)) for k in range(len(parts))]:
        rc, log = f.result()
        lines = log.splitlines()
        if rc or len(lines) != len(part):
            ctx.add(Finding({"C27"}, f"reduce_compile_commands.py: the run ended early ({log[-300:]})", log[-3000:], key="reduce-run"))
            continue
        for c, l in zip(part, lines):
            r = json.loads(l)
            ctx.traces += 1
            ctx.steps += len(c["db"])
            ctx.count("databases")
            bad = None
            if r["got"] != c["kept"]:
                bad = f"keeps commands {r['got']} instead of {c['kept']}"
            elif r["names"] != [c["db"][k - 1] for k in c["kept"]]:
                bad = f"--names-only prints {r['names']} instead of the files of commands {c['kept']}"
            if bad:
                ctx.add(Finding({"C27"}, f"reduce_compile_commands.py, files {c['db']}, excluding {c['excl']}: {bad}", json.dumps(dict(case=c, got=r)) + "\n", key="reduce-" + bad.split()[0]))
            elif len(c["db"]) == 4:
                ctx.sample(dict(case=c, got=r), 3)
