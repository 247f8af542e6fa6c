import itertools
import random
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C06", ["apply_greedy_commutation: load_slices, available_slice, commutes_at_slice, PullForward (tket/src/passes/commutation.rs)",
                   "TketOp::qubit_commutation (tket/src/ops.rs)", "Command/units (tket/src/circuit/command.rs, units.rs)"],
           "every ordered triple of a CX/CZ/Toffoli/CRz/CY and two gates placed so that the last may be pulled forward (all placements on 3 qubits), "
           "random circuits (quick 250, thorough 3000; <=5 qubits, <=14 operations) over all gates with symbolic angles, measurements, allocation, classical feed-forward and containers",
           SEM)
P = {"commute": [{"t": "commute"}]}
SMALL = ["CX", "CZ", "CY", "CRz", "Toffoli"]
S = quantum_ops()
NQ = {n: s["input"].count(QB) for n, s in S.items()}


def circ(gates, nq):
    m = Module()
    f = m.main([QB] * nq + [ROT, ROT], None)
    qs = list(f.ins[:nq])
    a = list(f.ins[nq:])
    extra = []
    for g, pl in gates:
        ins = [qs[i] for i in pl]
        if ROT in S[g]["input"]:
            ins.append(a[len(extra) % 2])
            extra.append(0)
        o = f.op("tket.quantum." + g, ins)
        for i, w in zip(pl, o):
            qs[i] = w
    f.out(qs)
    m.nodes[f.n]["signature"]["body"]["output"] = [QB] * nq
    return m.json()


ALLG = [n for n in S if n not in ("Measure", "MeasureFree", "QAlloc", "TryQAlloc", "QFree", "Reset")]
# the pulled gate is last; the slice-0 gate is a blocker that leaves a hole beside a two-qubit gate
for g in ALLG:
    for h in ALLG:
        for pl in itertools.permutations(range(3), NQ[g]):
            for pl2 in ([tuple(range(NQ[h]))] if TIER == "quick" else itertools.permutations(range(3), NQ[h])):
                # second-slice gate h after an H on a qubit outside the pulled gate's support, so that slice 0 has a hole
                hole = [q for q in pl2 if q not in pl]
                pre = [("H", (q,)) for q in hole] or [("H", (3,))]
                if NQ[h] == 1 and pl2[0] in pl and NQ[g] == 1:
                    continue
                ck.add(f"{g}{pl}-{h}{pl2}", {"hugr": circ(pre + [(h, pl2), (g, pl)], 4)}, P)
U = dict(g1=4, rot=4, g2=6, crz=1.5, ccx=1)
for s in range(150 if TIER == "quick" else 1500):
    j = Gen(f"c06/{SEED}/{s}", U, maxq=5, maxrot=8).program(nq=3 + s % 3, copy=[ROT, ROT], size=14, depth=0)
    ck.add(f"uni{s}", {"hugr": j}, P)
D = dict(g1=3, rot=3, g2=4, crz=1, meas=1, reset=.5, bool=.6, float=.5, rotx=.7, nat=.8, dfg=.6, cond=1, call=.5, tuple=.6, barrier=.7)
for s in range(150 if TIER == "quick" else 1500):
    j = Gen(f"c06d/{SEED}/{s}", D, ordered=s % 2 == 1, maxq=4).program(nq=3, copy=[ROT, BOOL, F64], size=12, depth=1)
    ck.add(f"dyn{s}", {"hugr": j}, P, {"max_meas": 6})
A = dict(D, measfree=.7, alloc=1, free=.5, tryalloc=.4)
for s in range(60 if TIER == "quick" else 600):
    j = Gen(f"c06a/{SEED}/{s}", A, ordered=s % 2 == 1, maxq=4).program(nq=3, copy=[ROT, BOOL, F64], size=12, depth=1)
    ck.add(f"alloc{s}", {"hugr": j}, P, {"max_meas": 6, "alloc_fail": True, **({} if s % 2 else {"after_opts": {"rev": False}})})
# angles computed from the outcome of a gate that the rotation could otherwise be pulled past; order edges
for s in range(120 if TIER == "quick" else 1200):
    r = random.Random(f"c06f/{SEED}/{s}")
    m = Module()
    f = m.main([QB] * 3, None)
    qs = list(f.ins)
    bits = []
    o = bool(s % 2)
    for k in range(r.randint(5, 9)):
        x = r.random()
        r.shuffle(qs)
        if x < .25:
            qs[0] = f.op("tket.quantum." + r.choice("HXZST"), qs[:1], ordered=o)[0]
        elif x < .6:
            qs[:2] = f.op("tket.quantum." + r.choice(["CX", "CZ", "CX"]), qs[:2], ordered=o)
        elif x < .75 or not bits:
            a, b = f.op("tket.quantum.Measure", qs[:1], ordered=o)
            qs[0] = a
            bits.append(b)
        else:
            x, y = f.cond(r.choice(bits), [], [ROT])
            x.out([x.rot(.5)])
            y.out([y.rot(.25)])
            qs[0] = f.op("tket.quantum." + r.choice(["Rz", "Rx"]), [qs[0], x.outs[0]], ordered=o)[0]
    f.out(qs + bits)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in qs + bits]
    ck.add(f"fb{s}", {"hugr": m.json()}, P, {"max_meas": 8})
ck.run_cases()
ck.finish()
