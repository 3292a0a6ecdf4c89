"""C26: the consumers enumerated by spec/VTPackage.tla are configured, compiled and run against the real build files; facts judged by the same module."""
import json, os, re
from common import *

INV = "INVARIANT Sufficient\nINVARIANT Refused\nINVARIANT Show\nPROPERTY Grows\n"
# as /opt/vp/build.sh configures the project: nothing is fetched
OFFLINE = ["-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS", "-DCMAKE_FIND_PACKAGE_TARGETS_GLOBAL=ON",
           "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest", "-DINSTALL_GTEST=OFF"]
LEVEL = {201402: 14, 201703: 17, 202002: 20}
TARGETS = ("value_types", "indirect", "polymorphic", "indirect_cxx14", "indirect_cxx17", "polymorphic_cxx14", "polymorphic_cxx17")
ASK = {0: "", 1: "0.0.1", 2: "1.0.0"}


def consumers(ctx, maxlinks):
    empty = os.path.join(ctx.dir("package"), "none.ndjson")
    open(empty, "w").close()
    rc, out = tlc(ctx, "package", "VTPackage", f'CONSTANTS\n MaxLinks = {maxlinks}\n FactsFile = "{empty}"\nSPECIFICATION Spec\n{INV}CHECK_DEADLOCK FALSE\n')
    gen, dist, tail = tlc_stats(out)
    if rc != 0:
        raise CheckError("VTPackage: " + "\n".join(tail[-15:]))
    res, head = [], None
    for l in open(out, errors="replace"):
        m = re.match(r'<<77200, "(\w+)", (\d), "(\w+)", (\d+)>>', l)
        if m:
            head = (m.group(1), int(m.group(2)), m.group(3), int(m.group(4)))
        m = re.match(r"<<77201, \{(.*)\}>>", l)
        if m:
            res.append((*head, tuple(sorted(re.findall(r'"(\w+)"', m.group(1))))))
    if len(res) != dist:
        raise CheckError("VTPackage: not every consumer was read")
    ctx.states += dist
    ctx.transitions += gen
    return sorted(set(res))


def heads(links):
    """the headers the consumer includes, as VTPackage!Heads"""
    m = {"value_types": ("VT_I20", "VT_P20"), "indirect": ("VT_I20",), "polymorphic": ("VT_P20",)}
    return sorted({h for t in links for h in m.get(t, ("VT_I14",) if t.startswith("indirect") else ("VT_P14",))})


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def configure(src, build, *args):
    return sh(["cmake", "-S", src, "-B", build, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", *args], timeout=300, env=dict(os.environ, CC="gcc", CXX="g++"))


def build(ctx, d, how, alias, group, facts, what):
    """one consuming project: an executable per (own standard, links)"""
    text = f"cmake_minimum_required(VERSION 3.22.4)\nproject(consumer LANGUAGES CXX)\n{how}\n"
    text += "foreach(t " + " ".join(TARGETS) + f")\n if(TARGET {alias[0]}::${{t}}{alias[1]})\n  message(STATUS \"OFFERED ${{t}}\")\n endif()\nendforeach()\n".replace("${t}", "${t}")
    names = []
    for n, (own, links) in enumerate(group):
        names.append(f"c{n}")
        text += f"add_executable(c{n} {os.path.join(HARNESS, 'consumer.cc')})\n"
        text += f"target_compile_definitions(c{n} PRIVATE {' '.join(heads(links))})\n"
        if own:
            text += f"set_target_properties(c{n} PROPERTIES CXX_STANDARD {own} CXX_STANDARD_REQUIRED ON)\n"
        text += f"target_link_libraries(c{n} PRIVATE {' '.join(alias[2](t) for t in links)})\n"
    write(os.path.join(d, "src", "CMakeLists.txt"), text)
    return names


def engine(ctx):
    cons = consumers(ctx, 3 if ctx.thorough else 2)
    d = ctx.dir("package")
    facts, logs = [], {}

    def fact(log="", **k):
        logs[len(facts)] = log
        facts.append(k)

    # the project itself, with its tests, installed; and without its tests
    rc, log = configure(REPO, os.path.join(d, "top"), "-DBUILD_TESTING=ON", f"-DCMAKE_INSTALL_PREFIX={d}/inst", *OFFLINE)
    if rc:
        raise CheckError("the project cannot be configured: " + log[-1500:])
    rc2, log2 = sh(["cmake", "--install", os.path.join(d, "top")], timeout=120)
    rc3, log3 = configure(REPO, os.path.join(d, "top-untested"), "-DBUILD_TESTING=OFF", *OFFLINE)
    if rc3:
        ctx.add(Finding({"C26"}, "the project cannot be configured without its tests (-DBUILD_TESTING=OFF)", log3[:6000], key="configure-untested"))
    if rc2:
        ctx.add(Finding({"C26"}, "the project cannot be installed", log2[:6000], key="install"))
    # finding the installed package
    find = {}
    for ask in (0, 1, 2):
        src = os.path.join(d, f"find{ask}", "src")
        write(os.path.join(src, "CMakeLists.txt"), f"cmake_minimum_required(VERSION 3.22.4)\nproject(consumer LANGUAGES CXX)\nfind_package(xyz_value_types {ASK[ask]} REQUIRED)\n")
        rc, log = configure(src, src[:-3] + "b", f"-DCMAKE_PREFIX_PATH={d}/inst")
        find[ask] = rc == 0
        fact(log, f="obtain", mode="pkg", ask=ask, got="yes" if rc == 0 else "refused")
    groups = {}
    for mode, ask, got, own, links in cons:
        if got == "yes" and links and mode in ("sub", "pkg") and ask == 0:
            groups.setdefault(mode, set()).add((own, links))
    for mode, group in sorted(groups.items()):
        if mode == "pkg" and not find[0]:
            continue
        # quick: every set of links, with two of the consumer's own levels; deeper runs: all
        group = sorted(group)
        if not ctx.thorough:
            sets = sorted({l for _, l in group})
            group = [(o, l) for o, l in group if (sets.index(l) + {0: 0, 14: 1, 17: 2, 20: 3, 23: 4}[o] + ctx.seed) % 3 == 0 or mode == "pkg"]
        p = os.path.join(d, mode)
        how = f"add_subdirectory({REPO} vt)" if mode == "sub" else "find_package(xyz_value_types REQUIRED)"
        alias = ("xyz_value_types", "", lambda t: f"xyz_value_types::{t}") if mode == "sub" else ("xyz_value_types", "", lambda t: "xyz_value_types::xyz_value_types")
        if mode == "pkg":  # the exported name of the one installed target
            how += "\nif(TARGET xyz_value_types::xyz_value_types AND NOT TARGET xyz_value_types::value_types)\n add_library(xyz_value_types::value_types INTERFACE IMPORTED)\nendif()"
        names = build(ctx, p, how, alias, group, facts, mode)
        rc, log = configure(os.path.join(p, "src"), os.path.join(p, "b"), f"-DCMAKE_PREFIX_PATH={d}/inst", f"-DCMAKE_INSTALL_PREFIX={p}/inst", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON")
        fact(log, f="offer", mode=mode, targets=re.findall(r"OFFERED (\w+)", log))
        if rc:
            ctx.add(Finding({"C26"}, f"a project consuming the library ({mode}) cannot be configured", log[:6000], key=f"consumer-{mode}"))
            continue
        if mode == "sub":
            _, t = sh(["ctest", "-N"], cwd=os.path.join(p, "b"), timeout=60)
            m = re.search(r"Total Tests: (\d+)", t)
            sh(["cmake", "--install", os.path.join(p, "b")], timeout=60)
            files = [f for _, _, fs in os.walk(os.path.join(p, "inst")) for f in fs]
            fact(t, f="quiet", tests=int(m.group(1)) if m else 0, installs=len(files))
        rc, log = sh(["ninja", "-k", "0", "-C", os.path.join(p, "b"), *names], timeout=600)
        for n, (own, links) in enumerate(group):
            exe = os.path.join(p, "b", f"c{n}")
            r = dict(f="consume", mode=mode, own=own, links=list(links), compiled=False, ok=False, std=0, defs=[])
            if os.path.exists(exe):
                r["compiled"] = True
                rc, o = sh([exe], timeout=60)
                try:
                    x = json.loads(o)
                    r.update(ok=x["ok"] and rc == 0, std=LEVEL.get(x["std"], 23), defs=x["defs"])
                except ValueError:
                    pass
            fact(log if not r["compiled"] else "", **r)
            ctx.count("consumers")
    path = os.path.join(d, "facts.ndjson")
    write(path, "".join(json.dumps(r) + "\n" for r in facts))
    rc, out = tlc(ctx, "package-judge", "VTPackage", f'CONSTANTS\n MaxLinks = 0\n FactsFile = "{path}"\nSPECIFICATION JSpec\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n')
    bad, judged = [], None
    for l in open(out, errors="replace"):
        m = re.match(r"<<(7710\d), (\d+)", l)
        if m and m.group(1) == "77100":
            bad.append(int(m.group(2)) - 1)
        elif m:
            judged = int(m.group(2))
    g, ds, tail = tlc_stats(out)
    if rc != 0 or judged != len(facts):
        raise CheckError("VTPackage facts: " + "\n".join(tail[-15:]))
    ctx.states += ds
    ctx.transitions += ds
    ctx.traces += 1
    ctx.steps += len(facts)
    for r in facts[:: max(1, len(facts) // 4)]:
        ctx.sample(r)
    for n in bad:
        r = facts[n]
        key = {"obtain": f"package-find-{r.get('ask')}", "offer": f"package-offer-{r.get('mode')}", "quiet": "package-quiet"}.get(r["f"], f"consume-{r.get('mode')}-{'-'.join(r.get('links', []))}")
        ctx.add(Finding({"C26"}, f"not allowed by spec/VTPackage.tla: {json.dumps(r)}", json.dumps(r) + "\n" + logs[n][:6000], key=key))
