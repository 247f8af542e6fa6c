import glob
import os
import random
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C08", ["QSystemPass::run with every combination of with_constant_fold / with_monomorphize / with_force_order / with_lazify (tket-qsystem/src/lib.rs)",
                   "everything it calls: modifier resolution entry, monomorphisation, constant folding, dead code removal, LowerTketToQSystemPass, ReplaceBoolPass, force_order, runtime barriers"],
           "random full-feature programs (quick 150, thorough 1500; <=4 qubits, <=10 statements, depth 2, <=4 measurements, bounded loops) through up to five option combinations, "
           "plus generic functions monomorphised and small programs (1 qubit, 3 statements) dense in control flow and constants; 28 programs run from the module entrypoint among functions of similar names and 10 whose entrypoint is not called main (thorough tenfold); the repository's compiled Guppy examples; all inputs, angles and measurement outcomes symbolic",
           SEM + ["logic.Eq with a constant operand is excluded from the folded random programs (known upstream finding, kept as its own case)"])
PIPES = {"default": [{"t": "qsystem"}], "fold": [{"t": "qsystem", "fold": True}], "fold-strict": [{"t": "qsystem", "lazy": False, "fold": True}],
         "noorder": [{"t": "qsystem", "order": False}], "nomono": [{"t": "qsystem", "mono": False, "lazy": False}]}
O = {"max_meas": 8, "alloc_fail": True}


def post(c, j):
    left = left_over(j, "tket.quantum") + left_over(j, "tket.modifier")
    return f"operations left unlowered: {left}" if left else None


# the known upstream finding, isolated
m = Module()
f = m.main([BOOL], [BOOL])
f.out(f.op("logic.Eq", [f.ins[0], f.bool(False)]))
ck.add("eq-const-false", {"hugr": m.json()}, {"fold": PIPES["fold"]}, O)

for p in sorted(glob.glob("/repo/test_files/guppy*/**/*.hugr", recursive=True)):
    ck.add("file-" + os.path.basename(p)[:-5], {"path": p}, PIPES, O, post=post)
F1 = dict(ALL, noeq=1, natmeas=.7, nat=1)
for s in range(150 if TIER == "quick" else 1500):
    j = Gen(f"c08/{SEED}/{s}", F1, ordered=True).program(nq=2, copy=[ROT, BOOL, TBOOL, F64], size=9, depth=2, externs=True)
    ks = list(PIPES)
    ck.add(f"full{s}", {"hugr": j}, {k: PIPES[k] for k in ((ks[s % 5], ks[(s // 5 + 1 + s) % 5]) if TIER == "quick" else ks)}, O, post=post)
F2 = dict(g1=1, rot=3, tbool=.5, bool=1, int=1, float=2, rotx=1, dfg=1, cond=1, loop=.5, cfg=.7, call=1, calli=.5, panic=.3, extern=1, noeq=1, tuple=.7)
for s in range(120 if TIER == "quick" else 1200):
    j = Gen(f"c08s/{SEED}/{s}", F2, ordered=True).program(nq=1, copy=[ROT, BOOL, F64], size=4, depth=3, externs=True)
    ck.add(f"small{s}", {"hugr": j}, {k: PIPES[k] for k in (("fold", "fold-strict") if s % 2 else ("fold", "default"))}, O, post=post)
# programs whose qubits are all allocated inside: no inputs at all (everything folds)
for s in range(60 if TIER == "quick" else 400):
    j = Gen(f"c08c/{SEED}/{s}", dict(F1, alloc=3, cfg=1.5, cond=1.5), ordered=True).program(nq=0, copy=[], size=10, depth=2, externs=True)
    ck.add(f"closed{s}", {"hugr": j}, {k: PIPES[k] for k in ("fold", "fold-strict", "default")}, O, post=post)


# the module itself as the entrypoint: the program is the function called main, whatever stands around it
NAMES = ["main_old", "remain", "Main", "main2", "_main", "m", "mai"]
for s in range(28 if TIER == "quick" else 280):
    r = random.Random(f"c08m/{SEED}/{s}")
    j = Gen(f"c08m/{SEED}/{s}", dict(F1, call=1.5), ordered=True).program(nq=r.randint(1, 2), copy=[ROT, BOOL], size=5, depth=1, externs=True)
    j = decoys(j, r.sample(NAMES, r.randint(0, 3)))
    k = list(PIPES)[s % 5]
    ck.add(f"module{s}", {"hugr": j}, {"module-" + k: [{"t": "entry"}] + PIPES[k] + [{"t": "entry", "name": "main"}]}, O, post=post)
    # the entrypoint counts, not its name
    if s % 3 == 0:
        i = j["entrypoint"]
        w = dict(j, nodes=[dict(n, name="prog") if x == i else n for x, n in enumerate(j["nodes"])])
        ck.add(f"entry{s}", {"hugr": decoys(w, ["main", "prog2"])}, {k: PIPES[k]}, O, post=post)
ck.run_cases()
ck.finish()
