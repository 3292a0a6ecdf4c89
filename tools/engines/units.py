"""C25: units enumerated by spec/VTUnits.tla are compiled from the real headers, linked together and exchange owners; facts judged by the same module."""
import os, re, subprocess
from common import *
from engines import traces

FILE = {14: dict(ind="indirect_cxx14.h", pol="polymorphic_cxx14.h"), 20: dict(ind="indirect.h", pol="polymorphic.h")}
OTHER = dict(fc="feature_check.h", tag="tagged_allocator.h", trk="tracking_allocator.h")
INV = "INVARIANT OneDefinition\nINVARIANT SelfContained\nINVARIANT OrderFree\nINVARIANT Show\nPROPERTY Repeats\n"
# header version -> [(compiler, language modes of the units, round robin, flags)]
QUICK = {14: (("g++", (14, 17, 20, 23), ("-O0",)), ("clang++", (14,), ("-O0",))), 20: (("clang++", (20, 23), ("-O0",)), ("g++", (20,), ("-O0",)))}
DEEP = {14: (("g++", (14,), ("-O0",)), ("g++", (17,), ("-O2",)), ("g++", (14, 17, 20, 23), ("-O0",)), ("clang++", (14, 17, 20), ("-O0",)), ("clang++", (14,), ("-O2",))),
        20: (("g++", (20,), ("-O0",)), ("g++", (20, 23), ("-O2",)), ("clang++", (20, 23), ("-O0",)), ("clang++", (20,), ("-O2",)))}


def texts(ctx, v, maxlen):
    empty = os.path.join(ctx.dir(f"units-gen-{v}"), "none.ndjson")
    open(empty, "w").close()
    cfg = f'CONSTANTS\n MaxLen = {maxlen}\n V = {v}\n FactsFile = "{empty}"\nSPECIFICATION Spec\n{INV}CHECK_DEADLOCK FALSE\n'
    rc, out = tlc(ctx, f"units-{v}", "VTUnits", cfg)
    gen, dist, tail = tlc_stats(out)
    if rc != 0:
        raise CheckError("VTUnits: " + "\n".join(tail[-15:]))
    res = []
    with open(out, errors="replace") as f:
        for l in f:
            m = re.match(r'"?<<77200, <<(.*)>>>>', l)
            if m:
                res.append(tuple(x.strip().strip('"\\') for x in m.group(1).split(",")))
    if len(res) < 30:
        raise CheckError("VTUnits enumerated too few units")
    return sorted(set(res), key=lambda t: (len(t), t)), gen, dist


def unit(ctx, d, n, t, v, cxx, std, flags):
    src = os.path.join(d, f"u{n}.cc")
    has = {h: int(h in t) for h in ("ind", "pol", "fc", "tag", "trk")}
    with open(src, "w") as f:
        f.write("".join(f'#include "{FILE[v].get(h) or OTHER[h]}"\n' for h in t))
        f.write(f'#define VT_UNIT {n}\n#define VT_SEQ "{" ".join(t)}"\n#define VT_V {v}\n#define VT_STD {std}\n')
        f.write("".join(f"#define VT_{h.upper()} {x}\n" for h, x in has.items()) + '#include "unit.inc"\n')
    rc, log = compile_one(cxx, std, src, src[:-3] + ".o", (), (*flags, "-c"))
    return rc, log


def engine(ctx):
    maxlen = 3 if ctx.thorough else 2
    plan = DEEP if ctx.thorough else QUICK
    for v in (14, 20):
        ts, gen, dist = texts(ctx, v, maxlen)
        ctx.states += dist
        ctx.transitions += gen
        jobs = []
        for cxx, stds, flags in plan[v]:
            d = ctx.dir(f"units-{v}-{cxx}-{'-'.join(map(str, stds))}{''.join(flags)}")
            # every unit in one of the modes (which one rotates with the seed); the last few in all
            objs = [(n, t, stds[(n + ctx.seed) % len(stds)]) for n, t in enumerate(ts)]
            objs += [(1000 + 100 * k + n, t, s) for k, s in enumerate(stds) if len(stds) > 1 for n, t in enumerate((("ind", "pol"), ("pol", "ind")))]
            main = ctx.pool.submit(compile_one, cxx, stds[0], os.path.join(HARNESS, "units.cc"), os.path.join(d, "main.o"), (), (*flags, "-c"))
            jobs.append((cxx, stds, flags, d, main, [(o, ctx.pool.submit(unit, ctx, d, o[0], o[1], v, cxx, o[2], flags)) for o in objs]))
        for cxx, stds, flags, d, main, objs in jobs:
            who = f"C++{v} headers ({cxx} -std=c++{'/'.join(map(str, stds))} {' '.join(flags)})"
            if main.result()[0]:
                raise CheckError("units.cc: " + main.result()[1][:2000])
            good = []
            for (n, t, std), f in objs:
                rc, log = f.result()
                if rc == 0:
                    good.append(os.path.join(d, f"u{n}.o"))
                    ctx.count("units_compiled")
                    continue
                ctx.add(Finding({"C25"}, f"C++{v} headers: a unit including {' '.join(FILE[v].get(h) or OTHER[h] for h in t)} does not compile (-std=c++{std} {cxx})",
                                log[:8000] + "\n" + open(os.path.join(d, f"u{n}.cc")).read(), key=f"unit-compile-{v}-{'-'.join(t)}"))
            exe = os.path.join(d, "a.out")
            rc, log = sh([cxx, *flags, os.path.join(d, "main.o"), *good, "-o", exe], timeout=300)
            if rc:
                ctx.add(Finding({"C25"}, f"{who}: units including the headers do not link into one program: {next((l for l in log.splitlines() if 'multiple definition' in l or 'undefined' in l), '')[-300:]}", log[:8000], key=f"unit-link-{v}"))
                continue
            rows, crash = traces.record(ctx, d, exe, [], 120)
            if rows is None or crash:
                last = rows[-1] if rows else None
                ctx.add(Finding({"C25"}, f"{who}: units exchanging owners: {crash or 'does not terminate'} after {json_line(last)}", json_line(last) + "\n", key=f"unit-crash-{v}"))
                if not rows:
                    continue
            rows = [r for r in rows if "done" not in r]
            path = os.path.join(d, "facts.ndjson")
            with open(path, "w") as f:
                f.write("".join(json_line(r) + "\n" for r in rows))
            rc, out = tlc(ctx, os.path.basename(d), "VTUnits", f'CONSTANTS\n MaxLen = {maxlen}\n V = {v}\n FactsFile = "{path}"\nSPECIFICATION JSpec\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n', heap="3g")
            bad, judged = [], None
            with open(out, errors="replace") as f:
                for l in f:
                    m = re.match(r'"?<<(7710\d), (\d+)', l)
                    if m and m.group(1) == "77100":
                        bad.append(int(m.group(2)) - 1)
                    elif m and m.group(1) == "77101":
                        judged = int(m.group(2))
            g, ds, tail = tlc_stats(out)
            if rc != 0 or judged != len(rows) or (not crash and len(rows) < 100):
                raise CheckError("VTUnits facts: " + "\n".join(tail[-15:]))
            ctx.states += ds
            ctx.transitions += ds
            ctx.traces += 1
            ctx.steps += len(rows)
            for r in rows:
                ctx.count("unit_" + r["f"])
            for r in rows[:: max(1, len(rows) // 3)][:3]:
                ctx.sample(r)
            for n in bad:
                r = rows[n]
                ctx.add(Finding({"C25"}, f"{who}: not allowed by spec/VTUnits.tla: {json_line(r)}", json_line(r) + "\n", key=f"unit-{v}-{r['f']}-{r.get('q', r.get('k'))}"))


def json_line(r):
    import json
    return json.dumps(r, separators=(",", ":"))
