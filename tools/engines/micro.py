"""The instruction-level specification (spec/VTMicro.tla): a failure at every instruction that can fail, checked by TLC; no code is run."""
from common import *


def engine(ctx):
    base = spec_text("MCMicro.cfg")
    futs = []
    for kind in (1, 2):
        for mv in (0, 1, 2):
            cfg = cfg_set(base, Kinds="{%d}" % kind, Mvs="{%d}" % mv)
            futs.append((kind, mv, ctx.pool.submit(tlc, ctx, f"micro{kind}{mv}", "MCMicro", cfg, 2, (), "6g")))
    # every call comes to an end (liveness), in the smaller model of one owner fewer values
    for kind in (1, 2):
        cfg = cfg_set(base, Kinds="{%d}" % kind, Mvs="{0}").replace("Vals <- MCVals", "Vals = {1}").replace("Types <- MCTypes", "Types = {1}").replace("Cfgs <- MCCfgs", "Cfgs <- MCLiveCfgs") + "PROPERTY Returns\n"
        futs.append((kind, "live", ctx.pool.submit(tlc, ctx, f"live{kind}", "MCMicro", cfg, 2, (), "6g")))
    for kind, mv, f in futs:
        rc, out = f.result()
        gen, dist, tail = tlc_stats(out)
        if rc != 0:
            raise CheckError(f"the specification itself fails (VTMicro kind {kind} {mv}): " + "\n".join(tail[-25:]))
        ctx.states += dist
        ctx.transitions += gen
        ctx.count("micro_models")
