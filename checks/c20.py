import random
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C20", ["find_tuple_unpack_rewrites / make_rewrite / remove_pack_unpack (tket/src/passes/tuple_unpack.rs)", "CircuitRewrite::apply (tket/src/rewrite.rs)"],
           "every selection of used components for tuples of 1..3 values unpacked 1..2 times with 0..2 further uses of the tuple, and random programs rich in tuples (quick 250, thorough 2500); "
           "rewrites applied one at a time until none is left; all inputs symbolic",
           SEM)
P = {"untuple": [{"t": "untuple"}]}


def prog(uses, other, n, lin):
    m = Module()
    ts = [QB if lin and i == 0 else (BOOL, ROT, F64)[i % 3] for i in range(n)]
    f = m.main(ts, None)
    t = f.tup(f.ins)
    o = []
    for u in uses:
        x = f.untup(t)
        o += [x[i] for i in u]
    o += [t] * other
    f.out(o)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
    return m.json()


for n in (1, 2, 3):
    subs = [[i for i in range(n) if k >> i & 1] for k in range(2 ** n)]
    subs += [s[::-1] for s in subs if len(s) > 1] + [[0, 0]]
    for a in subs:
        if 0 in a and a.count(0) == 1:
            ck.add(f"lin{n}-{a}", {"hugr": prog([a], 0, n, True)}, P)
        for other in (0, 1, 2):
            ck.add(f"one{n}-{a}-{other}", {"hugr": prog([a], other, n, False)}, P)
            for b in subs:
                if TIER == "thorough" or other == 0 or len(a) + len(b) < 3:
                    ck.add(f"two{n}-{a}-{b}-{other}", {"hugr": prog([a, b], other, n, False)}, P)
F = dict(g1=2, rot=1, g2=1, tuple=5, bool=1, tbool=.7, int=.7, float=.7, dfg=.7, cond=.7, call=.6, meas=.5, cfg=.3)
for s in range(250 if TIER == "quick" else 2500):
    j = Gen(f"c20/{SEED}/{s}", F, ordered=bool(s % 2)).program(nq=2, copy=[ROT, BOOL, F64], size=9, depth=2)
    ck.add(f"rand{s}", {"hugr": j}, P)
ck.run_cases()
ck.finish()
