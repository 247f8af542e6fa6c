from vlib import drv
drv.build()
from vlib.modcases import *

Q = TIER == "quick"
K = 3 if Q else 30
ck = Check("C04", FUNCS,
           "every gate and global phase under one to three daggers, alone or around controls, and random unitary functions (quick 1440, thorough 14400; <=5 qubits, <=8 statements) with all gates, symbolic angles, "
           "global phases, permuted qubits, nested regions, one-block CFGs, conditionals on symbolic bits, direct and indirect calls with arguments in any order, nested modifiers, arrays of qubits and of angles, regions without qubits and classical helpers",
           SEM + ["V is the square root of X, as tket_exts documents it; quantum functions carry the flags that allow the modifiers (Guppy sets them)",
                  "loops and CFGs with several blocks under a dagger are outside: the resolver documents them as unsupported"])
D = [[("d",)], [("d",), ("d",)], [("d",), ("d",), ("d",)]]
DC = [[("d",), ("c", 1)], [("c", 1), ("d",)], [("c", 2), ("d",)], [("d",), ("c", 1), ("d",)]]
singles(ck, D + DC, 6)
rnd(ck, "flat", 120 * K, FLAT, D, PLAIN, 0, 8, SEED, perm=.3)
rnd(ck, "deep", 120 * K, DEEP, D, PLAIN, 2, 5, SEED, perm=.2, twice=.2)
rnd(ck, "ctl", 60 * K, DEEP, DC, PLAIN, 1, 4, SEED)
rnd(ck, "mod", 120 * K, dict(FLAT, mod=3, dfg=.4, cond=.4, call=.5), D, [Q2, Q3], 2, 3, SEED)
rnd(ck, "arr", 60 * K, dict(FLAT, arr=1, conv=1, dfg=.5, call=.4), D, ARRS, 1, 5, SEED, perm=.2)
rnd(ck, "cls", 60 * K, CLASSICAL, D, PLAIN, 1, 5, SEED)
rnd(ck, "misc", 40 * K, MISC, D + DC, PLAIN, 1, 5, SEED)
rnd(ck, "qtup", 30 * K, QTUP, D, PLAIN, 1, 4, SEED, expect="any")
inner_first(ck)
ck.run_cases()
ck.finish()
