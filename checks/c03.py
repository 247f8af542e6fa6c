from vlib import drv
drv.build()
from vlib.modcases import *

Q = TIER == "quick"
K = 3 if Q else 30
ck = Check("C03", FUNCS,
           "every gate and global phase under every chain of controls (1 to 4 control qubits, one to three control modifiers of different sizes, with a dagger before, between or after), "
           "and random unitary functions (quick 1350, thorough 13500; <=5 qubits with the controls, <=6 statements) with all gates, symbolic angles, global phases, nested regions, one-block CFGs, "
           "bounded loops, conditionals on symbolic bits, direct and indirect calls, nested modifiers, arrays of qubits and of angles, regions without qubits and classical helpers",
           SEM + ["V is the square root of X, as tket_exts documents it; a function's i-th qubit result continues its i-th qubit parameter; quantum functions carry the flags that allow the modifiers (Guppy sets them)",
                  "power modifiers are outside: the resolver documents them as unsupported"])
C = [[("c", 1)], [("c", 2)], [("c", 3)], [("c", 4)], [("c", 1), ("c", 1)], [("c", 1), ("c", 2)], [("c", 2), ("c", 1)], [("c", 1), ("c", 1), ("c", 2)], [("c", 0), ("c", 1)],
     [("d",), ("c", 1)], [("c", 1), ("d",)], [("d",), ("c", 2)], [("c", 2), ("d",)], [("c", 1), ("d",), ("c", 2)], [("c", 3), ("d",)], [("d",), ("d",), ("c", 1)]]
singles(ck, C, 6 if Q else 7)
S = [c for c in C if sum(x[1] for x in c if x[0] == "c") <= 3]
rnd(ck, "flat", 120 * K, FLAT, S, PLAIN, 0, 6, SEED)
rnd(ck, "deep", 120 * K, DEEP, S, PLAIN, 2, 4, SEED, twice=.2)
ND = [c for c in S if ("d",) not in c]
rnd(ck, "loop", 40 * K, dict(FLAT, loop=2, dfg=.7, cond=.7), ND, PLAIN, 2, 3, SEED)
rnd(ck, "mod", 120 * K, dict(FLAT, mod=3, dfg=.4, cond=.4, call=.5), S, [Q2, Q3], 2, 3, SEED)
rnd(ck, "arr", 50 * K, dict(FLAT, arr=1, conv=1, dfg=.5, call=.4), S, ARRS, 1, 4, SEED)
rnd(ck, "cls", 60 * K, CLASSICAL, S, PLAIN, 1, 5, SEED)
rnd(ck, "misc", 40 * K, MISC, S, PLAIN, 1, 4, SEED)
rnd(ck, "qtup", 40 * K, QTUP, ND, PLAIN, 1, 4, SEED)
ck.run_cases()
ck.finish()
