"""Facts recorded from the real code (harness/facts_*.cc), judged record by record by spec/VTFacts.tla."""
import collections, json, os, re, shutil, subprocess
from common import *

# harness -> (owner kinds, property, fields that are results)
HARN = {
    "traits": ((1, 2), "C22"),
    "access": ((1, 2), "C15"),
    "cmp": ((1,), "C13"),
    "hash": ((1,), "C14"),
    "cons": ((1, 2), "C16"),
    "hooks": ((1, 2), "C18"),
    "value": ((1, 2), "C12"),
    "decl": ((1, 2), "C21"),
    "types": ((1, 2), "C22"),
}
PROP = dict(noexcept={"C22"}, noexcept_default={"C22"}, trait={"C22"}, category={"C13", "C22"}, access={"C15"}, write={"C15"}, take={"C15"}, takec={"C15"},
            layer={"C15", "C20"}, cmp={"C13"}, cmp3={"C13"}, hash={"C14"}, hset={"C14"}, hmap={"C14"}, cons={"C16"}, zero={"C16"},
            avail={"C16"}, explicit={"C16"}, anything={"C16", "C12"}, pinned={"C16"}, ctad={"C16"}, hook={"C18"}, aware={"C18"}, decl={"C21"}, valias={"C16"})
OUT = dict(noexcept=("val",), noexcept_default=("mctor", "massign", "swap", "dtor"), access=("ty", "sel", "same", "allocs", "touched"),
           write=("same", "stays"), take=("got", "left", "touched"), takec=("got", "left", "touched"), layer=("sel", "ty"),
           cmp=("res", "stable", "touched"), cmp3=("res", "cat", "touched"), hash=("h", "stable", "touched"), hset=("res", "size"), hmap=("got",),
           cons=("dyn", "how", "cats", "vals", "builds", "allocs", "frees", "args", "misplaced", "valueless", "uid"),
           zero=("zero", "allocs", "uid"), avail=("got",), explicit=("implicit",), anything=("how", "allocs"), pinned=("v", "allocs"), ctad=("ok",),
           hook=("born", "died", "newhook", "delhook", "stray", "wrong", "baddealloc", "threw"), aware=("post",), valias=("same", "how", "allocs", "frees", "val", "src", "uid"), decl=("got",), trait=("val",), category=("got", "gotv"))
QUICK = {14: (("g++", 14),), 20: (("clang++", 20),)}
WIDE = {14: (("g++", 14), ("clang++", 20)), 20: (("clang++", 20), ("g++", 23))}
DECL = {14: (("g++", 14), ("clang++", 14), ("clang++", 17)), 20: (("g++", 20), ("clang++", 20))}
DEEP = {14: (("g++", 14), ("g++", 17), ("g++", 20), ("clang++", 14), ("clang++", 17), ("clang++", 20)),
        20: (("g++", 20), ("g++", 23), ("clang++", 20), ("clang++", 23))}


def one(ctx, name, kind, v, cxx, std, flags, args):
    """compile, run, judge"""
    d = ctx.dir(f"facts-{name}-{kind}-{v}-{cxx}-{std}-{'-'.join(flags)}")
    exe = os.path.join(d, "a.out")
    src = os.path.join(HARNESS, f"facts_{name}.cc")
    rc, log = compile_one(cxx, std, src, exe, [f"VT_V={v}", f"VT_KIND={kind}"], flags)
    if rc != 0:
        return dict(compile=log)
    try:
        p = subprocess.run([exe, *args], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
    except subprocess.TimeoutExpired:
        return dict(crash="does not terminate", log=log)
    lines = p.stdout.splitlines()
    try:
        recs = [json.loads(l) for l in lines]
    except ValueError:
        if p.returncode == 0:
            raise CheckError("unreadable facts from " + name)
        recs = []
    if p.returncode != 0:
        return dict(crash=f"exit {p.returncode} after {len(lines)} records; {lines[-1:]} {p.stderr[:300]}", log=log)
    with open(os.path.join(d, "facts.ndjson"), "w") as f:
        f.write(p.stdout)
    rc, out = tlc(ctx, os.path.basename(d), "VTFacts", cfg_set(spec_text("VTFacts.cfg"), FactsFile='"%s"' % os.path.join(d, "facts.ndjson")), heap="3g")
    bad, quirk, judged = [], [], None
    with open(out, errors="replace") as f:
        for l in f:
            m = re.match(r'"?<<(7710\d), (\d+)(?:, (\d+))?>>', l)
            if m:
                if m.group(1) == "77100":
                    bad.append(int(m.group(2)) - 1)
                elif m.group(1) == "77102":
                    quirk.append(int(m.group(2)) - 1)
                elif m.group(1) == "77101":
                    judged = int(m.group(2))
    gen, dist, tail = tlc_stats(out)
    if rc != 0 or judged != len(recs):
        raise CheckError(f"VTFacts on {name}: " + "\n".join(tail[-15:]))
    return dict(recs=recs, lines=lines, bad=bad, quirk=quirk, states=dist, log=log, build=f"{cxx} -std=c++{std} {' '.join(flags)} -DVT_V={v} -DVT_KIND={kind} -I/repo -I/verif/harness /verif/harness/facts_{name}.cc")


def brief(r):
    return json.dumps({k: v for k, v in r.items() if k != "impl"})


def engine(ctx, names, kinds=(1, 2), c17=False):
    plan = DEEP if ctx.thorough else WIDE if c17 else QUICK
    flagsets = (("-O0",), ("-O2",), ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")) if ctx.thorough else (("-O0",),)
    futs = []
    for name in names:
        ks, prop = HARN[name]
        for kind in ks:
            if kind not in kinds:
                continue
            for v in (14, 20):
                for cxx, std in (DECL if name == "decl" and not ctx.thorough else plan)[v]:
                    for flags in flagsets:
                        for args in ([[str(ctx.seed)]] if not (ctx.thorough and name in ("hash", "hooks")) else [[str(ctx.seed + i)] for i in range(4)]):
                            if flags != ("-O0",) and args[0] != str(ctx.seed):
                                continue
                            fl = flags if args[0] == str(ctx.seed) else flags + (f"-DSEED={args[0]}",)
                            futs.append((name, kind, v, cxx, std, flags, args[0], prop, ctx.pool.submit(one, ctx, name, kind, v, cxx, std, fl, args)))
    tables = {}
    for name, kind, v, cxx, std, flags, seed, prop, f in futs:
        r = f.result()
        who = f"{'indirect' if kind == 1 else 'polymorphic'} C++{v} header (-std=c++{std} {cxx} {' '.join(flags)})"
        if "compile" in r:
            ctx.add(Finding({prop, "C17"}, f"{who}: a use required by the specification does not compile (facts_{name}.cc)", r["compile"][:20000], key=f"facts-compile-{name}-{kind}-{v}"))
            continue
        if "crash" in r:
            ctx.add(Finding({prop, "C17", "C03"}, f"{who}: facts_{name}.cc: {r['crash']}", r["log"][:3000], key=f"facts-crash-{name}-{kind}-{v}"))
            continue
        ctx.states += r["states"]
        ctx.transitions += r["states"]
        ctx.traces += 1
        ctx.steps += len(r["recs"])
        for rec in r["recs"]:
            ctx.count("facts_" + rec["f"])
        for i in r["recs"][:: max(1, len(r["recs"]) // 2)][:2]:
            ctx.sample(i)
        for i in r["bad"]:
            rec = r["recs"][i]
            lo = i
            if rec["f"] in ("hset", "hmap", "hook", "aware"):
                lo = max(0, i - 30)
            key = f"fact-{v}-" + brief({k: x for k, x in rec.items() if k not in OUT.get(rec["f"], ())})
            props = PROP[rec["f"]] if rec.get("form") != "assign" else {"C12"}
            props = props | ({"C14"} if rec.get("q", "").startswith("hash") else set())
            ctx.add(Finding(props, f"{who}: not allowed by spec/VTFacts.tla: {brief(rec)}", "# " + r["build"] + "\n" + "\n".join(r["lines"][lo:i + 1]) + "\n", key=key))
        for i in r["quirk"]:
            if r["recs"][i]["f"] == "trait":
                ctx.add(Finding({"C14", "C22"}, f"{who}: std::hash is enabled for an element without one: {brief(r['recs'][i])}", r["lines"][i] + "\n", key="hash-enabled"))
                continue
            ctx.add(Finding({"C13", "C17"}, f"{who}: unordered values compare equivalent through nested owners: {brief(r['recs'][i])}", r["lines"][i] + "\n", key="nested-unordered"))
        if c17:
            t = collections.OrderedDict()
            for j, rec in enumerate(r["recs"]):
                o = OUT.get(rec["f"], ())
                k = json.dumps({a: b for a, b in rec.items() if a != "impl" and a not in o and not a.startswith("want")})
                t.setdefault(k, []).append((json.dumps([rec.get(a) for a in o]), j in set(r["quirk"])))
            tables.setdefault((name, kind, seed), []).append((v, who, t))
    for (name, kind, seed), ts in tables.items():
        v0, who0, base = ts[0]
        for v, who, t in ts[1:]:
            for k in base:
                if k not in t:
                    continue
                a, b = base[k], t[k]
                f = json.loads(k)["f"]
                if f in ("hset", "hmap", "hook", "aware", "hash"):
                    if len(a) != len(b):
                        continue
                if f == "noexcept" and json.loads(k)["op"] in ("cctor", "cassign", "mctor"):
                    continue  # not promised
                if [x[0] for x in a][:len(b)] == [x[0] for x in b][:len(a)]:
                    ctx.count("facts_equal_across_builds")
                    continue
                q = any(x[1] for x in a + b)
                ctx.add(Finding({"C17"}, f"{who0} and {who} differ: {k}: {a[0][0]} / {b[0][0]}", k + "\n" + str(a) + "\n" + str(b) + "\n",
                                key="hash-enabled" if q and f == "trait" else "nested-unordered" if q else "fact-diff-" + k))
