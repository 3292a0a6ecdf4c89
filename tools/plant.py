#!/usr/bin/env python3
"""Development helper for planted bugs (not used by any check).
plant.py make SPEC.py        write seeded/<id>/ from a Python list BUGS
plant.py verify ID...        build + stable tests + demo, in a scratch copy, with and without the patch
plant.py check ID... [--all] run the property's quick check (or all) against the patched scratch copy"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
BASE = "/tmp/pl-base"


def sh(cmd, **k):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    return p.returncode, p.stdout


def copy(dst):
    shutil.rmtree(dst, True)
    os.makedirs(dst)
    sh(f"git -C /repo archive HEAD | tar x -C {dst}")


def build_test(d, more=""):
    cfg = f"cmake -S {d} -B {d}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DCMAKE_FIND_PACKAGE_TARGETS_GLOBAL=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest {more}"
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    rc, o = sh(cfg, env=env)
    if rc:
        return False, "configure failed " + o[-500:]
    rc, o = sh(f"ninja -C {d}/_build -k 0", env=env)
    if rc:
        return False, "build failed\n" + "\n".join(l for l in o.splitlines() if "error" in l)[:1500]
    sh(f"mkdir -p {d}/_build/vp-results")
    rc, o = sh(f"python3 /opt/vp/run_ctest.py {d}/_build {d}/_build/vp-results/results.txt")
    rc, o = sh(f"python3 /opt/vp/results.py {d}/out.json lines:{d}/_build/vp-results/results.txt")
    r = json.load(open(f"{d}/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base if isinstance(base, list) else base.get("passed") or base.get("stable") or base.get("tests")
    miss = [t for t in stable if t not in set(r["passed"])]
    return not miss, f"{len(r['passed'])} passed; missing {miss[:5]}"


def verify(i):
    b = os.path.join(S, i)
    d = f"/tmp/pl-{i}"
    copy(d)
    lay = f"/tmp/pl-demo-{i}"
    shutil.rmtree(lay, True)
    shutil.copytree(b, lay, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    rc0, o0 = sh(["bash", lay + "/demo.sh"], cwd=d)
    rc, o = sh(["git", "apply", "--unsafe-paths", "--directory=" + d, b + "/patch.diff"], cwd="/tmp")
    if rc:
        sh(f"cd {d} && patch -p1 < {b}/patch.diff")
    rc1, o1 = sh(["bash", lay + "/demo.sh"], cwd=d)
    ok, msg = build_test(d)
    shutil.rmtree(d, True)
    shutil.rmtree(lay, True)
    good = rc0 == 0 and rc1 != 0 and ok
    return i, good, f"demo clean rc={rc0} patched rc={rc1}; tests: {msg}" + ("" if rc0 == 0 else "\n" + o0[-800:]) + ("" if rc1 else "\n" + o1[-300:])


def check(i, props=None):
    b = os.path.join(S, i)
    d = f"/tmp/plc-{i}"
    copy(d)
    sh(f"cd {d} && patch -p1 < {b}/patch.diff")
    p = json.load(open(b + "/meta.json"))["property"]
    res = []
    for q in props or [p]:
        rc, o = sh(["python3", V + "/tools/check.py", "--prop", q, "--tier", "quick"], cwd=V, env=dict(os.environ, VT_REPO=d, VERIF_SEED="1"))
        res.append((q, rc, [l for l in o.splitlines()][:2]))
    shutil.rmtree(d, True)
    return i, res


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    for x in g["BUGS"]:
        d = f"/tmp/plm"
        copy(d)
        sh("git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x", cwd=d)
        for f, old, new in x["edits"]:
            s = open(f"{d}/{f}").read()
            cnt = s.count(old)
            n = x.get("nth", 1)
            if cnt < 1:
                print("NOT FOUND", x["id"], f, old)
                break
            if cnt > 1 and "nth" not in x:
                print("AMBIGUOUS", x["id"], f, cnt, old)
                break
            parts = s.split(old)
            s = old.join(parts[:n]) + new + old.join(parts[n:])
            open(f"{d}/{f}", "w").write(s)
        else:
            rc, diff = sh("git diff", cwd=d)
            o = os.path.join(S, x["id"])
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(diff)
            if "demo" in x:
                open(o + "/demo.cc", "w").write(x["demo"])
            std = x.get("std", 20)
            open(o + "/demo.sh", "w").write(x.get("sh") or f"""#!/bin/bash
# exit 0: the guarantee holds; non-zero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
{x.get('cxx', 'g++')} -std=c++{std} {x.get('flags', '-O0')} -I"$PWD" "$here/demo.cc" -o "$tmp/demo" || exit 1
timeout 60 "$tmp/demo"
""")
            json.dump(dict(property=x["prop"], needs=x["needs"], what_it_breaks=x["what"]), open(o + "/meta.json", "w"), indent=1)
            print("made", x["id"])
        shutil.rmtree(d, True)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    allp = None
    if "--all" in args:
        args.remove("--all")
        allp = [f"C{i:02d}" for i in range(1, 29)]
    if cmd == "make":
        for a in args:
            make(a)
    else:
        ids = args or sorted(os.listdir(S))
        if cmd == "verify":
            with cf.ThreadPoolExecutor(3) as ex:
                for r in ex.map(verify, ids):
                    print("OK " if r[1] else "BAD", r[0], r[2], flush=True)
        else:
            for i in ids:
                i, res = check(i, allp)
                for q, rc, l in res:
                    print("CAUGHT" if rc == 1 else ("quiet " if rc == 0 else "ERROR "), i, q, rc, l, flush=True)
