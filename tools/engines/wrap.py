"""C28: every history enumerated by spec/VTWrap.tla is replayed on exploration/wrapper.h."""
import json, os, re
from common import *

INV = "INVARIANT OwnsOne\nINVARIANT Unshared\nINVARIANT NoLeak\nINVARIANT Show\nPROPERTY FailsClean\nPROPERTY SourceKept\n"


def engine(ctx):
    slots, maxlen = (3, 5) if ctx.thorough else (2, 5)
    rc, out = tlc(ctx, "wrap", "VTWrap", f"CONSTANTS\n Slots = {{{', '.join(map(str, range(1, slots + 1)))}}}\n Vals = {{1, 2}}\n MaxLen = {maxlen}\nSPECIFICATION Spec\n{INV}CHECK_DEADLOCK FALSE\n", heap="4g")
    gen, dist, tail = tlc_stats(out)
    if rc != 0:
        raise CheckError("VTWrap: " + "\n".join(tail[-15:]))
    d = ctx.dir("wrap")
    # TLC breaks long values over several lines
    text = re.sub(r",\n\s+", ", ", open(out, errors="replace").read())
    hist = re.findall(r"^<<([-0-9, \n]+)>>$", text, re.M)
    want = maxlen * (5 + slots + 1)
    hist = [h.replace(",", " ") for h in hist]
    if len(hist) < 500 or any(len(h.split()) != want for h in hist):
        raise CheckError(f"VTWrap: {len(hist)} histories read")
    files = []
    n = (len(hist) + 3) // 4
    for k in range(4):
        files.append(os.path.join(d, f"h{k}.txt"))
        with open(files[k], "w") as f:
            f.write("".join(h + "\n" for h in hist[k * n:(k + 1) * n]))
    ctx.states += dist
    ctx.transitions += gen
    src = os.path.join(HARNESS, "wrap.cc")
    san = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")
    for cxx, std, flags in (("g++", 20, san), ("clang++", 20, ("-O2",)), ("g++", 23, ("-O0",)))[:3 if ctx.thorough else 2]:
        exe = os.path.join(d, f"a-{cxx}-{std}")
        probes = dict(HETERO="wrappers of different element types do not compare", COPY="wrappers of an element that can be copied but not assigned or default constructed do not compile",
                      INC="structures with members of an incomplete type (exploration/incomplete_types.cc) do not compile")
        if cxx != "g++":
            del probes["INC"]  # clang 18 does not take a constructor template for the default constructor of a defaulted one
        inc = os.path.join(REPO, "exploration", "incomplete_types.cc")
        rc, log = compile_one(cxx, std, src, exe, tuple("VT_" + p for p in probes), flags + ((inc,) if "INC" in probes else ()))
        if rc:  # which part is it?
            good = []
            for p, what in probes.items():
                rc, log = compile_one(cxx, std, src, exe, ("VT_" + p,), flags + ((inc,) if p == "INC" else ()))
                if rc == 0:
                    good.append("VT_" + p)
                else:
                    ctx.add(Finding({"C28"}, f"exploration/wrapper.h ({cxx} C++{std}): {what}", log[:8000], key="wrap-" + p.lower()))
            rc, log = compile_one(cxx, std, src, exe, good, flags + ((inc,) if "VT_INC" in good else ()))
            if rc:
                ctx.add(Finding({"C28"}, f"exploration/wrapper.h ({cxx} C++{std}): the wrappers do not compile", log[:8000], key="wrap-compile"))
                continue
        for k, f in [(k, ctx.pool.submit(sh, [exe, files[k], str(slots)], timeout=1800)) for k in range(4)]:
            rc, log = f.result()
            done = 0
            for l in log.splitlines():
                if l.startswith('{"done"'):
                    done = json.loads(l)["done"]
                    ctx.traces += 4 * done
                    ctx.steps += 4 * done * maxlen
                    ctx.count("wrapper_histories", done)
                elif l.startswith("{"):
                    r = json.loads(l)
                    ctx.add(Finding({"C28"}, f"exploration/wrapper.h ({cxx}): {r['kind']}: {r['what']} (step {r.get('step')} of {r.get('h')})", l + "\n", key="wrap-" + r["kind"] + "-" + r["what"]))
            if not done and not any(l.startswith("{") and '"fact"' not in l for l in log.splitlines()):
                ctx.add(Finding({"C28"}, f"exploration/wrapper.h ({cxx}): the replay ended: " + next((l for l in log.splitlines() if "ERROR" in l or "error" in l or "twice" in l), log[-200:]), log[:6000], key="wrap-crash"))
    ctx.sample(dict(history=hist[len(hist) // 2]))
