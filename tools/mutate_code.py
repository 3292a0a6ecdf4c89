#!/usr/bin/env python3
"""Development tool (used by no check): mutates the headers of /repo one line at a time, keeps the mutants which build and
pass the repository's tests, and runs checks on those.
mutate_code.py gen FILE...             list the mutants
mutate_code.py filter OUT.json FILE... which mutants survive the tests
mutate_code.py check IN.json OUT.json PROP...   which survivors the quick checks of PROP... see"""
import difflib, json, os, queue, random, re, shutil, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
V = plant.V
REPO = "/repo"
SUBST = [
    (r"std::move\((\w[\w.\->*]*)\)", r"\1"), (r"std::forward<[^<>]*>\((\w+)\)", r"\1"), (r"\bconstexpr ", ""), (r"\bexplicit ", ""), (r"\[\[nodiscard\]\] ", ""),
    (r"==", "!="), (r"!=", "=="), (r"&&(?= )", "||"), (r"\|\|", "&&"), (r"!(?=[a-z])", ""), (r"\bif \((?!constexpr)", "if (!("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bother\.alloc_", "alloc_"), (r"(?<![.\w])alloc_(?!\w)", "other.alloc_"), (r"\bother\b", "*this"), (r"noexcept\(", "noexcept(!"), (r" noexcept\b(?!\()", ""), (r"is_always_equal::value", "propagate_on_container_swap::value"),
    (r"propagate_on_container_(copy_assignment|move_assignment)", "propagate_on_container_swap"), (r"propagate_on_container_move_assignment", "propagate_on_container_copy_assignment"),
    (r"propagate_on_container_swap", "propagate_on_container_move_assignment"), (r"select_on_container_copy_construction\(", "("), (r" const &", " &"), (r"const (\w[\w<>:, ]*&)", r"\1"), (r"(\w)&& ", r"\1& "),
    (r"\bnullptr\b", "p_"), (r"\b1\b", "2"), (r"\b0\b", "1"), (r"<=", "<"), (r"(?<!<)<(?![<=\w])", "<="), (r">=", ">"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"),
    (r"std::addressof\(", "&("), (r"std::to_address\(", "std::addressof(*"), (r"std::remove_cvref_t<U>", "U"), (r"static_cast<const U&>", ""), (r"std::decay_t?<", "std::remove_reference_t<"),
    (r"requires.*", "requires true"), (r"clone\(", "move("), (r"move\(alloc", "clone(alloc"), (r"construct\((\w+), ([^,]+), ", r"construct(\1, \2, alloc_, "), (r"this != &", "this == &"), (r"equal::value", "equal::value && false"), (r"return \*this", "return other"), (r"exchange\((\w+\.)(\w+), nullptr\)", r"exchange(\2, nullptr)"),
]


def mutants(name):
    src = open(os.path.join(REPO, name)).read().splitlines(True)
    out, seen = [], set()
    for i, l in enumerate(src):
        t = l.strip()
        if not t or t.startswith(("//", "#", "*", "/*", "namespace", "template", "static_assert", "assert(", "Copyright")) or "LCOV" in l or "msvc" in l or i < 24 or "::type = 0" in t:
            continue
        cands = []
        if t.endswith(";") and not t.startswith(("using", "typename", "return", "}", "friend")):
            cands.append(("delete", "\n"))
        for pat, rep in SUBST:
            for m in re.finditer(pat, l):
                cands.append((pat, l[:m.start()] + m.expand(rep) + l[m.end():]))
        for op, n in cands:
            if op.startswith(r"\bif"):
                n = n.replace("if (!(", "if (!(", 1)
                n = re.sub(r"\) (return|\{|throw)", r")) \1", n, 1)
            if n != l and (i, n) not in seen:
                seen.add((i, n))
                out.append(dict(file=name, line=i + 1, op=op, new=n, old=l))
    return out


def apply(m, d):
    p = os.path.join(d, m["file"])
    s = open(os.path.join(REPO, m["file"])).read().splitlines(True)
    s[m["line"] - 1] = m["new"]
    open(p, "w").write("".join(s))


def restore(m, d):
    shutil.copyfile(os.path.join(REPO, m["file"]), os.path.join(d, m["file"]))


def filt(out, files, jobs=6):
    ms = [m for f in files for m in mutants(f)]
    random.Random(1).shuffle(ms)
    q = queue.Queue()
    for m in ms:
        q.put(m)
    keep, stat = [], {}

    def work(k):
        d = f"/tmp/mc-{k}"
        plant.copy(d)
        os.environ["CXXFLAGS"] = "-fno-var-tracking"
        ok, msg = plant.build_test(d, "-DCMAKE_CXX_FLAGS_DEBUG=-g0")
        assert ok, msg
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            apply(m, d)
            rc, o = plant.sh(f"nice -19 ninja -j2 -C {d}/_build")
            r = "build"
            if rc == 0:
                plant.sh(f"timeout 120 python3 /opt/vp/run_ctest.py {d}/_build {d}/_build/vp-results/results.txt")
                plant.sh(f"python3 /opt/vp/results.py {d}/out.json lines:{d}/_build/vp-results/results.txt")
                base = json.load(open("/opt/vp/BASELINE.json"))
                stable = base if isinstance(base, list) else base.get("passed") or base.get("stable") or base.get("tests")
                try:
                    miss = set(stable) - set(json.load(open(f"{d}/out.json"))["passed"])
                except Exception:
                    miss = {"?"}
                r = "tests" if miss else "survives"
                if not miss:
                    keep.append(m)
            stat[r] = stat.get(r, 0) + 1
            print(r, q.qsize(), m["file"], m["line"], m["new"].strip()[:90], flush=True)
            restore(m, d)
        shutil.rmtree(d, True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump(keep, open(out, "w"), indent=1)
    print(stat)


def check(inp, out, props):
    ms = json.load(open(inp))
    d = "/tmp/mc-check"
    for m in ms:
        if m.get("caught"):
            continue
        plant.copy(d)
        apply(m, d)
        m["runs"] = m.get("runs", {})
        for p in props:
            rc, o = plant.sh(["python3", V + "/tools/check.py", "--prop", p, "--tier", "quick"], cwd=V, env=dict(os.environ, VT_REPO=d, VERIF_SEED="1"))
            m["runs"][p] = (rc, o.splitlines()[:1])
            if rc == 1:
                m["caught"] = p
                break
        print("CAUGHT" if m.get("caught") else "quiet ", m.get("caught"), m["file"], m["line"], m["old"].strip()[:70], "=>", m["new"].strip()[:90], flush=True)
        json.dump(ms, open(out, "w"), indent=1)
    shutil.rmtree(d, True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "gen":
        for f in a[1:]:
            for m in mutants(f):
                print(f, m["line"], m["new"].strip())
    elif a[0] == "filter":
        filt(a[1], a[2:])
    elif a[0] == "check":
        check(a[1], a[2], a[3:])
