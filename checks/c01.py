from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C01", ["LowerTketToQSystemPass / lower_tk2_op and the QSystemOpBuilder decompositions (tket-qsystem/src/extension/qsystem*)",
                   "QSystemPass (tket-qsystem/src/lib.rs)"],
           "every unitary tket.quantum operation alone and inside DFG/conditional/CFG/function/indirect call, every ordered pair on 3 qubits, "
           "plus random circuits (quick 80, thorough 800; <=4 qubits, <=14 statements, depth 2); all angles and all input states symbolic",
           SEM)
NON = ("Measure", "MeasureFree", "QAlloc", "TryQAlloc", "QFree", "Reset")
U = [n for n in quantum_ops() if n not in NON]
P1 = {"lower": [{"t": "lower_tk2"}], "pass": [{"t": "qsystem"}], "fold": [{"t": "qsystem", "fold": True, "lazy": False}],
      "plain": [{"t": "qsystem", "mono": False, "order": False}]}




def post(c, j):
    left = left_over(j, "tket.quantum")
    return f"operations left unlowered: {left}" if left else None


for n in U:
    for w in (None, "dfg", "cond", "cfg", "call", "calli"):
        ck.add(f"{n}-{w or 'top'}", {"hugr": single(n, w)}, P1, post=post)
for a in U:
    for b in U:
        ck.add(f"{a}.{b}", {"hugr": twice(a, b)}, {"lower": P1["lower"]} if TIER == "quick" else P1, post=post)
for s in range(80 if TIER == "quick" else 800):
    j = Gen(f"c01/{SEED}/{s}", UNITARY, maxq=4).program(nq=2 + s % 3, copy=[ROT, ROT, F64, BOOL], size=14, depth=2)
    ck.add(f"rand{s}", {"hugr": j}, P1, {"max_meas": 0}, post=post)
ck.run_cases()
ck.finish()
