from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C02", ["LowerTketToQSystemPass: build_measure_flip / Measure / MeasureFree / Reset / QAlloc / TryQAlloc / QFree lowering (tket-qsystem/src/extension/qsystem.rs, lower.rs)",
                   "ReplaceBoolPass future handling (tket/src/passes, tket-qsystem)", "insert of runtime order edges by QSystemPass"],
           "each measuring/allocating operation in every container, every ordered pair of such operations (with an entangling gate before and between), "
           "plus random programs (quick 60, thorough 700; <=4 qubits, <=12 statements, <=7 measurements); input state, angles and classical inputs symbolic",
           SEM)
NON = ("Measure", "MeasureFree", "QAlloc", "TryQAlloc", "QFree", "Reset")
P = {"lower": [{"t": "lower_tk2"}], "bool": [{"t": "lower_tk2"}, {"t": "replace_bool"}], "pass": [{"t": "qsystem"}]}
O = {"max_meas": 8, "alloc_fail": True}


def post(c, j):
    left = left_over(j, "tket.quantum")
    return f"operations left unlowered: {left}" if left else None


def pair(a, b, form):
    """entangle, a, entangle, b; every surviving qubit and bit is returned"""
    m = Module()
    f = m.main([QB, QB], None)
    qs = list(f.ins)
    bits = []
    for k, n in enumerate((a, b)):
        if len(qs) > 1:
            qs[:2] = f.op("tket.quantum.CX", qs[:2], ordered=True)
        if qs:
            qs[0] = f.op("tket.quantum.H", [qs[0]], ordered=True)[0]
        if n in ("QAlloc",):
            qs = f.op("tket.quantum.QAlloc", ordered=True) + qs
        elif n == "TryQAlloc":
            s = f.op("tket.quantum.TryQAlloc", ordered=True)[0]
            x, y = f.cond(s, [], [QB], ordered=True)
            x.out(x.panic(3, "none", [], [QB], ordered=True))
            y.out(y.ins)
            qs = x.outs + qs
        elif not qs:
            continue
        else:
            o = f.op("tket.quantum." + n, [qs[0]], ordered=True)
            qs = qs[1:]
            for w in o:
                if w.ty == QB:
                    qs.append(w)
                else:
                    bits.append(w if w.ty == BOOL else f.op("tket.bool.read", [w])[0])
    if form and len(bits) > 0:
        # feed-forward on the first bit
        if qs:
            x, y = f.cond(bits[0], [qs[0]], [QB], ordered=True)
            x.out(x.ins)
            y.out(y.op("tket.quantum.X", y.ins))
            qs[0] = x.outs[0]
        bits.append(f.op("logic.Xor", [bits[0], bits[-1]])[0])
    o = qs + bits
    f.out(o)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
    return m.json()


for n in NON:
    for w in (None, "dfg", "cond", "cfg", "call", "calli"):
        ck.add(f"{n}-{w or 'top'}", {"hugr": single(n, w)}, P, O, post=post)
for a in NON:
    for b in NON:
        for fm in (0, 1):
            ck.add(f"{a}.{b}.{fm}", {"hugr": pair(a, b, fm)}, P, O, post=post)
F = dict(g1=3, rot=1, g2=2, meas=2, measfree=2, reset=1.5, alloc=2, free=1, tryalloc=1, bool=1, dfg=.7, cond=1, loop=.4, cfg=.5, call=.7, calli=.3, tuple=.3)
for s in range(60 if TIER == "quick" else 700):
    j = Gen(f"c02/{SEED}/{s}", F, ordered=True, maxmeas=6).program(nq=2, copy=[ROT, BOOL], size=12, depth=2)
    ck.add(f"rand{s}", {"hugr": j}, P, O, post=post)
ck.run_cases()
ck.finish()
