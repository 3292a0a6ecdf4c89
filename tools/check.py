#!/usr/bin/env python3
"""check.py --prop Cxx : decides one property on the current tree of /repo.
exit 0 held, 1 violated (VIOLATION line), 2 the check could not be carried out."""
import argparse, concurrent.futures as cf, hashlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import plan


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    ctx = Ctx(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed)
    def run(name, fn, c):
        t = time.time()
        try:
            fn(c)
        except CheckError as e:
            return str(e)
        except Exception:
            return traceback.format_exc()
        finally:
            secs[name] = round(time.time() - t, 1)

    secs, errors = {}, []
    engines = [(name, fn, ctx.fork()) for name, fn in plan.engines(ctx)]
    with cf.ThreadPoolExecutor(max(1, len(engines))) as ex:  # the engines share ctx.pool's workers
        futs = [ex.submit(run, *e) for e in engines]
    for (name, fn, c), f in zip(engines, futs):
        ctx.merge(c)
        if f.result():
            errors.append(f"{name}: {f.result()}")
    ctx.cov["engine_seconds"] = secs
    if errors:
        print("check error: " + "\n".join(errors), file=sys.stderr)
        if not [f for f in ctx.findings if ctx.prop in f.props]:
            sys.exit(2)
    hit = [f for f in ctx.findings if ctx.prop in f.props]
    known = known_findings().get(ctx.prop, {})
    out = os.path.join(VERIF, "out", ctx.prop)
    os.makedirs(out, exist_ok=True)
    new, seen = [], set()
    for f in hit:
        if f.key in known:
            if f.key not in seen:
                print(f"KNOWN-FINDING: property={ctx.prop} {known[f.key]}")
            seen.add(f.key)
        else:
            new.append(f)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level="model_checking",
              coverage=dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
                            samples=ctx.samples or ["none"], implementation_steps=ctx.steps, **ctx.cov),
              assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shown = set()
    for f in new:
        h = hashlib.sha1(f.key.encode()).hexdigest()[:10]
        if h in shown:
            continue
        shown.add(h)
        path = os.path.join(out, h + ".txt")
        with open(path, "w") as fh:
            fh.write("# " + f.what.replace("\n", " ") + "\n" + f.replay)
        if len(shown) <= int(os.environ.get("VT_SHOW", "10")):
            print(f"  {f.what}")
            print(f"VIOLATION property={ctx.prop} replay={path}")
    sys.stdout.flush()
    if ctx.states == 0 or (ctx.traces == 0 and not new):
        print("check error: nothing was explored", file=sys.stderr)
        sys.exit(1 if new else 2)
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
