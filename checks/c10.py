from vlib import drv
drv.build(("drv", "selene-hugr-qis-compiler"))
import os
import sys
from vlib.common import *
from vlib.lcheck import LCheck
from vlib.ggen import *
from vlib.fam import *
from vlib.gen import Env
from vlib.qgen import RT

ck = LCheck("C10", ["GpuCodegen (qis-compiler/rust/gpu.rs): contexts, lookups, calls, argument packing, results, validation, error handling; compile_to_llvm_ir (rust/lib.rs)",
                    "tket-qsystem/src/extension/classical_compute{,/gpu}.rs"],
            "programs with at most 2 GPU contexts and about 12 calls on a path: functions looked up by name and number and chosen at run time, 0 to 4 arguments of the types integer, float and bool, results of every "
            "supported type, failures of every call with and without a message, calls in conditionals, loops, blocks and functions, next to quantum operations and results; opt level 0, native. "
            "Outside: the library itself, WASM modules (no code generation in this repository), rounding", SEM)
O = {"max_meas": 8, "alloc_fail": True, "skip_ev": ("print", "delrng")}
N = 250 if TIER == "quick" else 3000
F1 = {k: v for k, v in RT.items() if k not in ("rng", "rbar", "loop", "cfg", "call", "fut", "leak", "extern")}
for s in range(N):
    g = GGen(f"c10/{SEED}/{s}", F1, ordered=True)
    ck.add(f"g{s}", {"hugr": g.gpu(nq=s % 3, size=3 + s % 4, depth=s % 3)}, {"O0": None}, O)


def tbool_arg():
    """a Guppy boolean (tket.bool) as the argument of a call"""
    g = GGen("c10/tbool", {}, ordered=True)
    g.m = Module()
    f = g.m.main([TBOOL], [])
    e = Env()
    e.addall(f.ins)
    c = g.invoke(f, e, g.context(f, e), None, ([TBOOL], []))
    f.op(G + "dispose_context", [c], [], [], ordered=True)
    f.out([])
    return g.m.json()


ck.add("tbool-argument", {"hugr": tbool_arg()}, {"O0": None}, O)
ck.compile_cases({"O0": (0, "native")})
ck.finish()
