import math
"""Shared program families."""
from .hg import *
from .gen import Gen

SEM = ["Reference semantics of the gate set, measurement and classical operations are those written in vlib/ (two independent gate tables are cross-checked at set-up)",
       "Floats and angles are exact reals in the symbolic execution (no rounding); a difference is replayed with IEEE doubles before it is reported",
       "Programs are equivalent when, for every input, every classical outcome, extern call and output has the same joint (unnormalised) quantum state, up to a global phase per branch"]

ALL = dict(g1=4, rot=3, g2=3, crz=1, ccx=.5, meas=1, measfree=1, reset=1, alloc=1, free=.5, tryalloc=.5, bool=1, tbool=1, int=1,
           float=1, rotx=1, tuple=1, dfg=1, cond=1, loop=.5, cfg=.7, call=1, calli=.5, panic=.3, arr=1, result=.5, extern=.5, barrier=.3)
UNITARY = dict(g1=5, rot=4, g2=3, crz=2, ccx=1, rotx=1, float=1, dfg=.6, cond=.5, call=.6, calli=.3, loop=.2, cfg=.3, tuple=.3)
GATES = {}


def quantum_ops():
    s = sigs()["tket.quantum"]["ops"]
    return {n: v["body"] for n, v in s.items() if n != "symbolic_angle"}


def inner_order(j):
    """drop the order edges from the inputs and to the outputs of a region, which say nothing"""
    N = j["nodes"]
    j["edges"] = [e for e in j["edges"] if not (e[1][1] is None and N[e[1][0]]["op"] == "Output" or e[0][1] is None and N[e[0][0]]["op"] == "Input")]
    return j


def single(name, wrap=None):
    """main applies one operation, possibly inside a container"""
    s = quantum_ops()[name]
    ins, outs = s["input"], s["output"]
    m = Module()
    if wrap in ("call", "calli"):
        fn = m.func("inner", ins, outs)
        fn.out(fn.op("tket.quantum." + name, fn.ins))
        f = m.main(ins, outs)
        f.out(f.call(fn, f.ins) if wrap == "call" else f.calli(f.loadfn(fn), f.ins))
        return m.json()
    pre = [BOOL] if wrap == "cond" and ins == outs else []
    f = m.main(pre + list(ins), outs)
    if wrap == "dfg":
        d = f.dfg(f.ins, outs)
        d.out(d.op("tket.quantum." + name, d.ins))
        f.out(d.outs)
    elif pre:
        a, b = f.cond(f.ins[0], f.ins[1:], outs)
        a.out(a.ins)
        b.out(b.op("tket.quantum." + name, b.ins))
        f.out(a.outs)
    elif wrap == "cfg":
        c = f.cfg(f.ins, outs)
        bl = c.block(ins, [[]], outs)
        bl.out([bl.tag(0, [], bl.sum)] + bl.op("tket.quantum." + name, bl.ins))
        c.branch(bl, 0, c.exit)
        f.out(c.outs)
    else:
        f.out(f.op("tket.quantum." + name, f.ins))
    return m.json()


def twice(a, b):
    """two operations in sequence on shared qubits, with constant angles for one of them"""
    S = quantum_ops()
    m = Module()
    nq = 3
    f = m.main([QB] * nq + [ROT], [QB] * nq)
    qs = list(f.ins[:nq])
    for j, n in enumerate((a, b)):
        ins = []
        k = 0
        for t in S[n]["input"]:
            if t == QB:
                ins.append(qs[(k + j) % nq])
                k += 1
            else:
                ins.append(f.ins[nq] if j == 0 else f.rot(0.375))
        o = f.op("tket.quantum." + n, ins)
        for i in range(k):
            qs[(i + j) % nq] = o[i]
    f.out(qs)
    return m.json()


def left_over(j, ext, allow=()):
    """names of operations of `ext` remaining in a program"""
    return sorted({n["name"] for n in j["nodes"] if n["op"] == "Extension" and n["extension"] == ext and n["name"] not in allow})


def angles(seed, depth=4, native=False, gates=3):
    """gates whose angles are computed by trees of float and rotation operations over the inputs"""
    import random
    r = random.Random(seed)
    r2 = random.Random(f"{seed}/const")
    m = Module()
    nf, nr = r.choice([(2, 1), (3, 0), (1, 1), (3, 1)])
    f = m.main([QB] * 2 + [F64] * nf + [ROT] * nr, [QB] * 2)
    fl, ro = list(f.ins[2:2 + nf]), list(f.ins[2 + nf:])
    shared = []

    def num(n):
        x = r.random()
        if n <= 0 or x < .1:
            if shared and r.random() < .2:
                return r.choice(shared)
            if r.random() < .75:
                return r.choice(fl)
            return f.f64(r.choice([0.25, -0.5, 1.0, 2.0, 3.141592653589793, -1.5707963267948966]))
        if x < .75:
            w = f.op("arithmetic.float." + r.choice(["fadd", "fsub", "fsub", "fmul"]), [num(n - 1), num(n - 1 - r.randrange(2))])[0]
        elif x < .83:
            w = f.op("arithmetic.float.fneg", [num(n - 1)])[0]
        elif x < .93:
            w = f.op("arithmetic.float.fdiv", [num(n - 1), f.f64(r.choice([2.0, 1.0, -4.0]))])[0]
        elif x < .97 and nr:
            w = f.op("tket.rotation.to_halfturns", [rot(n - 1)])[0]
        else:
            k = r.choice(["fmax", "fmin", "fabs", "ffloor", "fpow"])
            w = f.op("arithmetic.float." + k, [num(n - 2)] + ([num(n - 2)] if k in ("fmax", "fmin") else [f.f64(2.0)] if k == "fpow" else []))[0]
        shared.append(w)
        return w

    def rot(n):
        if n > 0 and r.random() < .3:
            return f.op("tket.rotation.radd", [rot(n - 1), rot(n - 1)])[0]
        if ro and r.random() < .25:
            return r.choice(ro)
        if r2.random() < .12:
            k = r2.choice([1, 1, .5, .25, .75, -.5, -.25, -.75, -1, 2, 1.25])
            return f.rot(k * math.pi if r2.random() < .8 else k)
        return f.op("tket.rotation.from_halfturns_unchecked", [num(n)])[0]
    q = list(f.ins[:2])
    for _ in range(gates):
        if native and r.random() < .7:
            k = r.choice(["Rz", "PhasedX", "ZZPhase"])
            a = [num(depth - 1) for _ in range(2 if k == "PhasedX" else 1)]
            k = "tket.qsystem." + k
        else:
            k = r.choice(["Rx", "Ry", "Rz", "CRz"])
            a = [rot(depth)]
            k = "tket.quantum." + k
        if k.endswith(("ZZPhase", "CRz")):
            q = list(f.op(k, q[::r.choice([1, -1])] + a))
        else:
            i = r.randrange(2)
            q[i] = f.op(k, [q[i]] + a)[0]
    f.out(q)
    return m.json()


def decoys(j, names):
    """the program behind trivial functions of these names"""
    k = 3 * len(names)
    up = lambda i: i + k if i else i
    md = j.get("metadata")
    new = []
    for i, nm in enumerate(names):
        ty = [QB, BOOL][:1 + i % 2]
        new += [{"op": "FuncDefn", "parent": 0, "name": nm, "signature": {"params": [], "body": sig(ty, ty)}, "visibility": ["Public", "Private"][i % 2]},
                {"op": "Input", "parent": 1 + 3 * i, "types": ty}, {"op": "Output", "parent": 1 + 3 * i, "types": ty}]
    edges = [[[2 + 3 * i, p], [3 + 3 * i, p]] for i in range(len(names)) for p in range(1 + i % 2)]
    return dict(j, nodes=j["nodes"][:1] + new + [dict(n, parent=up(n["parent"])) for n in j["nodes"][1:]],
                edges=edges + [[[up(a[0]), a[1]], [up(b[0]), b[1]]] for a, b in j["edges"]], entrypoint=up(j["entrypoint"]),
                metadata=None if md is None else md[:1] + [None] * k + md[1:])
