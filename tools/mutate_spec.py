#!/usr/bin/env python3
"""Development: is the specification's own set of properties strong enough?  Mutates the operation programs of VTCore and
expects TLC to report a violated property for each mutant (VTGraph's StepProps).  Not used by any check."""
import concurrent.futures as cf, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

M = [  # (name, old, new, occurrence)
    ("copy ctor ignores select", "Select(c, tl.al) ELSE op.a IN\n                       IF tl.ob", "tl.al ELSE op.a IN\n                       IF tl.ob", 1),
    ("copy ctor of valueless allocates", "IF tl.ob = 0 THEN InitValueless(s, al)\n                       ELSE ConsFrom(s, al, HCopy", "IF FALSE THEN InitValueless(s, al)\n                       ELSE ConsFrom(s, al, IF tl.ob = 0 THEN HDef ELSE HCopy", 1),
    ("copy ctor moves", "ELSE ConsFrom(s, al, HCopy, tl.ob, 0, 0)", "ELSE ConsFrom(s, al, HMove, tl.ob, 0, 0)", 1),
    ("copy ctor steals", "ELSE ConsFrom(s, al, HCopy, tl.ob, 0, 0)", "ELSE <<IInit(s, al), ISteal(s, t)>>", 1),
    ("extended move ignores given allocator", "IF op.a = NoAl THEN tl.al ELSE op.a IN\n                       IF AlEq(c, al, tl.al)", "tl.al IN\n                       IF AlEq(c, al, tl.al)", 1),
    ("extended move steals across", "IF AlEq(c, al, tl.al) THEN <<IInit(s, al), ISteal(s, t)>>", "IF TRUE THEN <<IInit(s, al), ISteal(s, t)>>", 1),
    ("move ctor never steals", "IF AlEq(c, al, tl.al) THEN <<IInit(s, al), ISteal(s, t)>>", "IF FALSE THEN <<IInit(s, al), ISteal(s, t)>>", 1),
    ("move ctor copies", "ELSE ConsFrom(s, al, HMv(c), tl.ob, 0, 0)", "ELSE ConsFrom(s, al, HCopy, tl.ob, 0, 0)", 1),
    ("copy assign: no self check", "[] op.o = ACOPY -> IF s = t THEN <<>>", "[] op.o = ACOPY -> IF FALSE THEN <<>>", 1),
    ("copy assign valueless keeps allocator", "<<IClear(s)>> \\o Maybe(c.pocca, <<ISetAl(s, tl.al)>>) \\o KillOld(sl.al)", "<<IClear(s)>> \\o KillOld(sl.al)", 1),
    ("copy assign valueless leaks", "<<IClear(s)>> \\o Maybe(c.pocca, <<ISetAl(s, tl.al)>>) \\o KillOld(sl.al)", "<<IClear(s)>> \\o Maybe(c.pocca, <<ISetAl(s, tl.al)>>)", 1),
    ("copy assign frees with new allocator", "<<IClear(s)>> \\o Maybe(c.pocca, <<ISetAl(s, tl.al)>>) \\o KillOld(sl.al)", "<<IClear(s)>> \\o Maybe(c.pocca, <<ISetAl(s, tl.al)>>) \\o KillOld(IF c.pocca THEN tl.al ELSE sl.al)", 1),
    ("copy assign never reuses", "ELSE IF c.kind = 1 /\\ sl.ob # 0 /\\ AlEq(c, sl.al, tl.al) THEN", "ELSE IF FALSE THEN", 1),
    ("copy assign reuses across", "ELSE IF c.kind = 1 /\\ sl.ob # 0 /\\ AlEq(c, sl.al, tl.al) THEN", "ELSE IF c.kind = 1 /\\ sl.ob # 0 THEN", 1),
    ("polymorphic reuses", "ELSE IF c.kind = 1 /\\ sl.ob # 0 /\\ AlEq", "ELSE IF sl.ob # 0 /\\ AlEq", 1),
    ("reuse forgets pocca", "<<IAssign(sl.ob, HCopy, tl.ob, 0)>> \\o Maybe(c.pocca, <<ISetAl(s, tl.al)>>)", "<<IAssign(sl.ob, HCopy, tl.ob, 0)>>", 1),
    ("copy assign allocates from own", "ELSE LET al == IF c.pocca THEN tl.al ELSE sl.al IN", "ELSE LET al == sl.al IN", 1),
    ("copy assign sets allocator first", "<<IAlloc(al), ICons(HCopy, tl.ob, 0, 0), IRelink(s)>>\n                         \\o Maybe(c.pocca, <<ISetAl(s, tl.al)>>) \\o KillOld(sl.al)", "Maybe(c.pocca, <<ISetAl(s, tl.al)>>) \\o <<IAlloc(al), ICons(HCopy, tl.ob, 0, 0), IRelink(s)>>\n                         \\o KillOld(sl.al)", 1),
    ("copy assign destroys first", "<<IAlloc(al), ICons(HCopy, tl.ob, 0, 0), IRelink(s)>>\n                         \\o Maybe(c.pocca, <<ISetAl(s, tl.al)>>) \\o KillOld(sl.al)", "<<IClear(s)>> \\o KillOld(sl.al) \\o <<IAlloc(al), ICons(HCopy, tl.ob, 0, 0), IRelink(s)>>\n                         \\o Maybe(c.pocca, <<ISetAl(s, tl.al)>>)", 1),
    ("move assign: no self check", "[] op.o = AMOVE -> IF s = t THEN <<>>", "[] op.o = AMOVE -> IF FALSE THEN <<>>", 1),
    ("move assign forgets pocma", "<<ISteal(s, t)>> \\o Maybe(c.pocma, <<ISetAl(s, tl.al)>>)", "<<ISteal(s, t)>>", 1),
    ("move assign steals always", "ELSE IF AlEq(c, sl.al, tl.al) THEN\n                         <<ISteal", "ELSE IF TRUE THEN\n                         <<ISteal", 1),
    ("move assign steals when pocma", "ELSE IF AlEq(c, sl.al, tl.al) THEN\n                         <<ISteal", "ELSE IF c.pocma \\/ AlEq(c, sl.al, tl.al) THEN\n                         <<ISteal", 1),
    ("move assign copies", "<<IAlloc(al), ICons(HMv(c), tl.ob, 0, 0), IRelink(s)>>", "<<IAlloc(al), ICons(HCopy, tl.ob, 0, 0), IRelink(s)>>", 1),
    ("value assign rebuilds", "[] op.o = AVAL  -> IF sl.ob # 0 THEN", "[] op.o = AVAL  -> IF FALSE THEN", 1),
    ("value assign from default allocator", "ELSE <<IAlloc(sl.al), ICons(HowOf(c, op.f), 0, 1, op.v), IRelink(s)>>", "ELSE <<IAlloc(0), ICons(HowOf(c, op.f), 0, 1, op.v), IRelink(s)>>", 1),
    ("value assign wrong value", "IAssign(sl.ob, HowOf(c, op.f), 0, op.v)", "IAssign(sl.ob, HowOf(c, op.f), 0, 1)", 1),
    ("swap allocators never", "Maybe(c.pocs, <<ISwapAl(s, t)>>)", "<<>>", 1),
    ("swap allocators always", "Maybe(c.pocs, <<ISwapAl(s, t)>>)", "<<ISwapAl(s, t)>>", 1),
    ("swap by copy", "\\o <<ISwapOb(s, t)>>", "\\o (IF sl.ob # 0 /\\ tl.ob # 0 THEN <<IAssign(sl.ob, HCopy, tl.ob, 0)>> ELSE <<ISwapOb(s, t)>>)", 1),
    ("destructor leaks storage", "[] op.o = KILL  -> <<IClear(s)>> \\o KillOld(sl.al)", "[] op.o = KILL  -> <<IClear(s), IDestroy>>", 1),
    ("destructor forgets", "[] op.o = KILL  -> <<IClear(s)>> \\o KillOld(sl.al)", "[] op.o = KILL  -> <<IClear(s)>>", 1),
    ("deallocate before destroy", "KillOld(al) == <<IDestroy, IDealloc(al)>>", "KillOld(al) == <<IDealloc(al), IDestroy>>", 1),
    ("default construct type", "ConsFrom(s, IF op.a = NoAl THEN 0 ELSE op.a, HDef, 0, 1, DefVal)", "ConsFrom(s, 0, HDef, 0, 1, DefVal)", 1),
    ("value construct slices", "HowOf(c, op.f), 0, op.ty, op.v)\n    [] op.o = CCOPY", "HowOf(c, op.f), 0, 1, op.v)\n    [] op.o = CCOPY", 1),
    ("unwind keeps storage", "!.heap = IF raw THEN [@ EXCEPT ![S.n] = FreeObj] ELSE @", "!.heap = @", 1),
]


def run(m):
    name, old, new, _ = m
    ctx = Ctx("spec", "quick", 1)
    text = spec_text("VTCore.tla")
    if text.count(old) != 1:
        return name, f"NOT APPLICABLE ({text.count(old)} places)"
    base = spec_text("MCGraph.cfg")
    cfg = cfg_set(base, Kinds="{1, 2}", Poccas="{TRUE, FALSE}", Pocmas="{TRUE, FALSE}", Aes="{FALSE}", Mvs="{0}", NSlots=2)
    cfg = re.sub(r"Emit = TRUE", "Emit = FALSE", cfg)
    rc, out = tlc(ctx, "m", "MCGraph", cfg, 1, (), "3g", files={"VTCore.tla": text.replace(old, new)})
    t = open(out, errors="replace").read()
    return name, "noticed" if re.search(r"is violated|Error:.*(violated|evaluat)", t) else "MISSED " + t[-300:] if rc == 0 else "noticed(error) " + re.search(r"Error: (.*)", t).group(1)[:80]


if __name__ == "__main__":
    with cf.ThreadPoolExecutor(4) as ex:
        for n, r in ex.map(run, [("none", "EXTENDS Integers, Sequences, FiniteSets, TLC", "EXTENDS Integers, Sequences, FiniteSets, TLC ", 1)] + M):
            print(f"{n}: {r}", flush=True)
