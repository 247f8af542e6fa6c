import glob
import os
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C14", ["NormalizeGuppy::run with every flag on its own and together (tket/src/passes/guppy.rs)", "BorrowSquashPass (tket/src/passes/borrow_squash.rs)",
                   "find_tuple_unpack_rewrites (tket/src/passes/tuple_unpack.rs)"],
           "random full-feature programs (quick 170, thorough 1700; <=4 qubits, <=10 statements, depth 3) with arrays, tuples, CFGs, calls, loops; every flag alone, all together and twice; "
           "hand-made CFG shapes; on half of the programs (thorough all) no operation other than its own may change in number when all steps but one are switched off, and none of its own may go when it is switched off; the repository's compiled Guppy examples; all inputs, angles and outcomes symbolic; loops unrolled to 12 iterations",
           SEM + ["logic.Eq with a constant operand and tuples with unused unpacked values are excluded from the random programs (known upstream findings, each kept as its own case)"])
OFF = dict(cfgs=False, untuple=False, fold=False, dead=False, inline=False, borrows=False)
PIPES = {"all": [{"t": "guppy"}], "twice": [{"t": "guppy"}, {"t": "guppy"}], "compile": [{"t": "guppy"}, {"t": "qsystem"}],
         "compile-lazy": [{"t": "guppy", "fold": False}, {"t": "qsystem", "fold": True}]}
for k in OFF:
    PIPES["only-" + k] = [dict({"t": "guppy"}, **dict(OFF, **{k: True}))]
    PIPES["no-" + k] = [dict({"t": "guppy"}, **{k: False})]
O = {"max_meas": 8, "alloc_fail": True}

# known upstream findings, isolated
m = Module()
f = m.main([BOOL], [BOOL])
f.out(f.op("logic.Eq", [f.ins[0], f.bool(False)]))
ck.add("eq-const-false", {"hugr": m.json()}, {"all": PIPES["all"]}, O)
m = Module()
f = m.main([BOOL, BOOL], [BOOL])
f.out(f.untup(f.tup(f.ins))[:1])
ck.add("untuple-unused", {"hugr": m.json()}, {"all": PIPES["all"]}, O)


def tuples(n, fan, other, nest, wrap):
    """pack n values, unpack `fan` times, optionally pass the tuple on"""
    m = Module()
    ts = ([QB, BOOL, ROT] if fan == 1 and not other else [BOOL, ROT, F64])[:n]
    f = m.main(ts, None)
    if wrap:
        d = f.dfg(f.ins, None)
        d, top = d, f
        ins = d.ins
    else:
        d, ins = f, f.ins
    t = d.tup(ins)
    if nest:
        t = d.untup(d.tup([t]))[0]
    o = []
    for _ in range(fan):
        o += d.untup(t)[::-1]
    if other:
        o.append(t)
    d.out(o)
    m.nodes[d.n]["signature"]["body" if d is f else "output"] = ({"input": m.nodes[d.n]["signature"]["body"]["input"], "output": [w.ty for w in o]} if d is f else [w.ty for w in o])
    return m, f, d, o


for n in (1, 2, 3):
    for fan in (1, 2, 3):
        for other in (0, 1):
            for nest in (0, 1):
                m, f, d, o = tuples(n, fan, other, nest, False)
                ck.add(f"tup{n}{fan}{other}{nest}", {"hugr": m.json()}, {"all": PIPES["all"], "only-untuple": PIPES["only-untuple"], "deprecated": [{"t": "untuple"}]}, O)
for p in sorted(glob.glob("/repo/test_files/guppy*/**/*.hugr", recursive=True)):
    ck.add("file-" + os.path.basename(p)[:-5], {"path": p}, PIPES, O)
F1 = dict(ALL, noeq=1, tupuse=1, tuple=1.5, cfg=1.2, arrkinds=["array", "borrow_arr", "borrow_arr"], arr=1.5, natmeas=.3)
ks = list(PIPES)
for s in range(170 if TIER == "quick" else 1700):
    j = Gen(f"c14/{SEED}/{s}", F1, ordered=True).program(nq=2, copy=[ROT, BOOL, TBOOL, F64], size=9, depth=3, externs=True)
    pick = {"all": PIPES["all"]}
    for k in ([ks[(s * 2 + i) % len(ks)] for i in range(2)] if TIER == "quick" else ks):
        pick[k] = PIPES[k]
    ck.add(f"full{s}", {"hugr": j}, pick, O)
F2 = dict(g1=1, rot=1, bool=2, int=2, float=1, dfg=1, cond=1.5, loop=.5, cfg=3, call=1, calli=.7, panic=.4, extern=1.5, noeq=1, tuple=1, tupuse=1)
for s in range(100 if TIER == "quick" else 1000):
    j = Gen(f"c14c/{SEED}/{s}", F2, ordered=True).program(nq=1, copy=[BOOL, INT(6), BOOL], size=5, depth=3, externs=True)
    ck.add(f"ctl{s}", {"hugr": j}, {"all": PIPES["all"], "only-cfgs": PIPES["only-cfgs"], "only-fold": PIPES["only-fold"]}, O)


def ops(j):
    c = {}
    for n in j["nodes"]:
        k = n["op"] if n["op"] != "Extension" else n["extension"] + "." + n["name"]
        if k in ("Case", "Input", "Output"):
            continue
        c[k] = c.get(k, 0) + 1
    return c


# each of these touches only its own kind of operation, so that the other steps, which are switched off, are seen not to be taken
TOUCH = {"off": (), "only-untuple": ("prelude.MakeTuple", "prelude.UnpackTuple"), "only-inline": ("DFG",), "only-borrows": ("collections.borrow_arr.borrow", "collections.borrow_arr.return")}
# everything is on but these: their operations stay
KEEP = {"no-dead": (("dead",), ("FuncDefn", "FuncDecl")), "no-borrows-dead": (("borrows", "dead"), ("collections.borrow_arr.borrow", "collections.borrow_arr.return")), "no-cfgs-dead": (("cfgs", "dead"), ("CFG",)),
        "no-inline-dead": (("inline", "dead"), ("DFG",)), "no-untuple-fold-dead": (("untuple", "fold", "dead"), ("prelude.MakeTuple", "prelude.UnpackTuple"))}


def switches(self, c, pipe, r, o, jobs, i):
    a, b = ops(r["before"]), ops(o["ok"])
    self.extra["switch comparisons"] = self.extra.get("switch comparisons", 0) + 1
    if pipe in KEEP:
        bad = [f"{k}: {a[k]} became {b.get(k, 0)}" for k in KEEP[pipe][1] if b.get(k, 0) < a.get(k, 0)]
    else:
        bad = [f"{k}: {a.get(k, 0)} became {b.get(k, 0)}" for k in sorted(set(a) | set(b)) if a.get(k, 0) != b.get(k, 0) and not (k in TOUCH[pipe] and b.get(k, 0) < a.get(k, 0))]
    if bad:
        self.alarm(f"{c.name}/{pipe}", f"a step that is switched off was taken: {bad}", {"steps": c.pipes[pipe], "src": c.src})


SW = {"off": [dict({"t": "guppy"}, **OFF)], **{k: PIPES[k] for k in TOUCH if k != "off"}, **{k: [dict({"t": "guppy"}, **{x: False for x in v[0]})] for k, v in KEEP.items()}}
for c in [c for c in ck.cases if c.name.startswith(("full", "ctl", "tup"))][::1 if TIER != "quick" else 2]:
    ck.add("switch-" + c.name, c.src, SW, O, judge=switches)
ck.run_cases()
ck.finish()
