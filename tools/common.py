"""Shared plumbing of the checks: scratch space, compiler, TLC, evidence."""
import atexit, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
JOBS = int(os.environ.get("VT_JOBS", "8"))


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


class Finding:
    """One observed departure from the specification."""

    def __init__(self, props, what, replay_text, key=None, files=None):
        self.props = set(props)
        self.what = what
        self.replay = replay_text
        self.key = key or what
        self.files = files or {}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix=f"vt-{prop}-")
        atexit.register(shutil.rmtree, self.scratch, True)
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.findings = []
        self.cache, self.lock = {}, threading.Lock()  # shared by the engines of a check
        self.states = self.transitions = self.traces = self.steps = 0
        self.cov = {}
        self.samples = []
        self.assume = []
        self.t0 = time.time()
        self.deadline = self.t0 + (780 if not self.thorough else 6 * 3600)

    def fork(self):
        """a context for one engine: same scratch space and workers, its own results"""
        import copy
        c = copy.copy(self)
        c.findings, c.cov, c.samples = [], {}, []
        c.states = c.transitions = c.traces = c.steps = 0
        return c

    def merge(self, c):
        self.findings += c.findings
        for k in ("states", "transitions", "traces", "steps"):
            setattr(self, k, getattr(self, k) + getattr(c, k))
        for k, v in c.cov.items():
            self.cov[k] = self.cov[k] + v if k in self.cov and isinstance(v, (int, float)) else v
        for s in c.samples:
            self.sample(s)

    def once(self, key, fn, *args):
        """the future of fn(*args), started once for all engines"""
        with self.lock:
            if key not in self.cache:
                self.cache[key] = self.pool.submit(fn, *args)
            return self.cache[key]

    def first(self, key):
        with self.lock:
            new = ("first", key) not in self.cache
            self.cache[("first", key)] = True
            return new

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def add(self, *f):
        self.findings.extend(f)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)


def sh(cmd, cwd=None, timeout=800, env=None, inp=None):
    p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, input=inp, text=True, errors="replace",
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout


# ------------------------------------------------------------------ compiling
def compile_cmd(cxx, std, src, out, defs=(), flags=(), repo=None):
    return [cxx, f"-std=c++{std}", *flags, f"-I{repo or REPO}", f"-I{HARNESS}", *[f"-D{d}" for d in defs], src, "-o", out]


def compile_one(cxx, std, src, out, defs=(), flags=("-O0",), repo=None, timeout=600):
    cmd = compile_cmd(cxx, std, src, out, defs, flags, repo)
    try:
        rc, log = sh(cmd, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("compiler timed out: " + " ".join(cmd))
    return rc, " ".join(cmd) + "\n" + log


def headers_ok(ctx):
    """Do the headers themselves compile?  (If not, nothing can be decided.)"""
    d = ctx.dir("hdr")
    res = {}
    for h, std in (("indirect.h", 20), ("polymorphic.h", 20), ("indirect_cxx14.h", 14), ("polymorphic_cxx14.h", 14)):
        src = os.path.join(d, h + ".cc")
        with open(src, "w") as f:
            f.write(f'#include <memory>\n#include <string>\n#include "{h}"\nint main() {{ {"xyz::indirect<int> a(std::in_place, 1); " if False else ""} return 0; }}\n')
        rc, log = compile_one("g++", std, src, src + ".out")
        res[h] = (rc, log)
    return res


# ------------------------------------------------------------------ TLC
def tlc(ctx, name, module, cfg_text, workers=1, extra=(), heap="2g", timeout=3600, files=None, cfgname="M.cfg"):
    """Runs TLC on a copy of the specification; returns the output file."""
    d = ctx.dir("tlc-" + name)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for fn, text in (files or {}).items():
        with open(os.path.join(d, fn), "w") as f:
            f.write(text)
    with open(os.path.join(d, cfgname), "w") as f:
        f.write(cfg_text)
    out = os.path.join(d, "out.txt")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + d, "-cp", CP,
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-config", cfgname, *extra, module + ".tla"]
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module} ({name})")
    return rc, out


def tlc_stats(out):
    """(states generated, distinct states) and the tail of the output."""
    tail = []
    gen = dist = 0
    with open(out, errors="replace") as f:
        for line in f:
            if "<<77" in line[:4]:
                continue
            tail.append(line.rstrip("\n"))
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                gen, dist = int(m.group(1)), int(m.group(2))
    return gen, dist, tail[-60:]


def cfg_set(template, **kv):
    """Replaces the constants `name = ...` of a .cfg text."""
    for k, v in kv.items():
        template, n = re.subn(rf"(^|\s){k} (=|<-) .*$", rf"\g<1>{k} = {v}", template, count=1, flags=re.M)
        if n != 1:
            raise CheckError(f"constant {k} not in cfg")
    return template


def spec_text(name):
    with open(os.path.join(SPEC, name)) as f:
        return f.read()


# ------------------------------------------------------------------ known findings
def known_findings():
    """Entries of known_findings.txt that are not repaired: {property: [key, ...]}"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"known: property=(C\d\d) key=(\S+) (.*)", line)
                if m:
                    res.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return res
