from vlib import drv
drv.build(("drv", "selene-hugr-qis-compiler"))
import os
import sys
from vlib.common import *
from vlib.lcheck import LCheck
from vlib.fam import *
from vlib.arrays import AGen
from vlib.qgen import QGen, RT


LEVELS = {"O0": (0, "native"), "qmain": (0, "native"), "qmain-module": (0, "native"), "O2": (2, "native"), "aarch64": (0, "aarch64-unknown-linux-gnu")}
ck = LCheck("C09", ["compile_to_llvm_ir (qis-compiler/rust/lib.rs), its array code generation (rust/array.rs)",
                    "tket-qsystem/src/llvm/{prelude,qsystem,futures,random,result,utils,debug,array_utils}.rs; tket/src/llvm/{rotation,bool}.rs"],
            "programs: every quantum operation alone; random programs of 9 statements at nesting depth 2 over gates, native gates, measurements and futures, allocation, angles, integers of 8 to 64 bits, "
            "results of every kind with texts of up to 255 bytes, state reports, random numbers, panics, conditionals, loops, control flow graphs, calls and function values; random array programs; "
            "closed programs from qmain; 16 Guppy programs of the repository. At most 8 measurements and 12 loop iterations on a path, 3 for the measurement loop example. Opt level 0, native and aarch64. "
            "Outside: opt levels 1-3 (LLVM's own passes), integers narrower than 8 bits, arrays as arguments of the entry function, rounding, GPU calls (C10) and WASM calls", SEM)
O = {"max_meas": 8, "alloc_fail": True, "skip_ev": ("print", "delrng")}
N = 300 if TIER == "quick" else 4000
F1 = dict(g1=2, g2=2, g3=.5, rot=2, meas=1, measfree=1, reset=1, alloc=1, free=.5, int=1, bool=1, result=1, cond=1, cfg=.5, loop=.5, dfg=.5, call=.5, extern=.5, panic=.3, noeq=1)
for k in sorted(set(quantum_ops()) - {"TryQAlloc"}):
    ck.add(f"one/{k}", {"hugr": single(k)}, {"O0": None}, O)
for s in range(N):
    j = Gen(f"c09/{SEED}/{s}", F1, ordered=True).program(nq=2, copy=[ROT, BOOL, F64], size=9, depth=2, externs=True)
    ck.add(f"g{s}", {"hugr": j}, {"O0": None}, O)
FA = dict(ALL, noeq=1, natmeas=1, nat=1, floatx=0)
for s in range(N):
    j = Gen(f"c09a/{SEED}/{s}", FA, ordered=True).program(nq=2, copy=[ROT, BOOL, TBOOL, F64], size=9, depth=2, externs=True)
    ck.add(f"a{s}", {"hugr": j}, {"O0": None}, O)
for s in range(N):
    nq = (0, 0, 2, 3)[s % 4]
    j = AGen(f"c09r/{SEED}/{s}", elems=("bif", "bifu", "bift")[s % 3], nq=nq, nest=(0, .3)[s % 2]).program()
    ck.add(f"arr{s}", {"hugr": j}, {"O0": None}, O)
for s in range(N):
    j = QGen(f"c09q/{SEED}/{s}", RT, ordered=True).program(nq=3, copy=[ROT, BOOL, F64, INT(6), INT(3), INT(5)], size=9, depth=2, externs=True)
    ck.add(f"rt{s}", {"hugr": j}, {("O0", "aarch64")[s % 3 == 2]: None}, dict(O, state_ids=True))
for s in range(N):
    j = QGen(f"c09m/{SEED}/{s}", dict(RT, closed=1, alloc=2, calli=.2), ordered=True).program(nq=0, copy=[], size=9, depth=2, externs=True)
    if s % 6 == 0:  # other functions around it, the entry function not called main
        j = decoys(dict(j, nodes=[dict(n, name="prog") if x == j["entrypoint"] else n for x, n in enumerate(j["nodes"])]), ["main", "prog2"])
    elif s % 6 == 1:
        j = decoys(j, ["main_old", "remain", "qmain2"])
    ck.add(f"main{s}", {"hugr": j}, {("qmain", "qmain-module")[s % 2]: None}, O)
for f in ("angles/angles.flat", "angles/angles", "false_branch/false_branch", "nested/nested.flat", "nested/nested", "ranges/ranges.flat.array", "ranges/ranges.flat", "ranges/ranges",
          "ranges/ranges.opt", "nested/nested.opt", "simple_cx/simple_cx"):
    ck.add(f"guppy/{f.split('/')[1]}", {"path": f"/repo/test_files/guppy_optimization/{f}.hugr"}, {"qmain": None}, dict(O, max_loop=20))
for f in ("const_op", "empty_func", "fn_calls", "one_rz", "repeat_until_success"):
    ck.add(f"guppy/{f}", {"path": f"/repo/test_files/guppy_examples/{f}.hugr"}, {"O0": None}, dict(O, max_loop=2, max_meas=3))


def rng_twice():
    """a second request for the random number generator gets nothing"""
    m = Module()
    f = m.main([INT(6)], [BOOL, BOOL])
    out = []
    for _ in range(2):
        s = f.op("tket.qsystem.random.NewRNGContext", [f.ins[0]], ordered=True)[0]
        a, b = f.cond(s, [], [BOOL], ordered=True)
        a.out([a.bool(False)])
        b.op("tket.qsystem.random.DeleteRNGContext", b.ins, ordered=True)
        b.out([b.bool(True)])
        out += a.outs
    f.out(out)
    return m.json()


def texts():
    """many texts which agree in all but one place: each result keeps its own"""
    m = Module()
    f = m.main([BOOL, F64], [])
    for n in (1, 9, 10, 11, 20, 50, 54, 55, 100, 117, 118, 200, 230):
        for at in {0, n // 2, n - 1}:
            for c in "xy":
                t = "m" * at + c + "m" * (n - 1 - at)
                f.op("tket.result.result_bool", [f.ins[0]], [strarg(t)], [], ordered=True)
                f.op("tket.result.result_f64", [f.ins[1]], [strarg(t)], [], ordered=True)
    f.out([])
    return m.json()


ck.add("texts", {"hugr": texts()}, {"O0": None}, O)
ck.add("rng-twice", {"hugr": rng_twice()}, {"O0": None}, O)
ck.compile_cases(LEVELS)
ck.finish()
