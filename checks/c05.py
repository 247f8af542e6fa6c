import random
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

I6 = INT(6)
MK = {"arr": (ARR, "array"), "barr": (BARR, "borrow_arr"), "varr": (VARR, "value_array")}
ck = Check("C05", ["BarrierInserter, WrappedBarrierBuilder (tket-qsystem/src/extension/qsystem/barrier)", "UnpackContainerBuilder, TypeUnpacker, OpFunctionMap (tket/src/passes/unpack_container)",
                   "lower_tk2_op (tket-qsystem/src/extension/qsystem/lower.rs), QSystemPass"],
           "every operand type up to two constructors deep, alone and beside a qubit; rows of two and three containers; random operand rows (quick 500, thorough 6000) of up to three constructors out of tuples, arrays, borrow arrays and value arrays "
           "of qubits, optional qubits, bits, integers and floats, at most 6 qubits, up to three barriers per program, in nested regions, branches, functions and control flow graphs; all inputs symbolic. "
           "Arrays handed to a barrier are full (an empty slot is a documented run-time error)", SEM)
STEPS = {"lower": [{"t": "lower_tk2"}], "pass": [{"t": "qsystem"}]}
O = {"barriers": "source", "after_opts": {"barriers": "target"}, "ordered": False, "max_meas": 6}


class Out(Exception):
    pass


def ty_of(t):
    k = t[0]
    if k == "leaf":
        return {"q": QB, "b": BOOL, "f": F64, "i": I6, "tb": TBOOL, "u": UNIT}[t[1]]
    if k == "tup":
        return TUP(*map(ty_of, t[1]))
    if k in ("oq", "none"):
        return OPT(QB)
    return MK[k][0](t[1], ty_of(t[2]))


def build(f, t, qs, env):
    k = t[0]
    if k == "leaf":
        if t[1] == "q":
            if not qs:
                raise Out()
            return qs.pop(0)
        return env[t[1]]() if callable(env[t[1]]) else env[t[1]]
    if k == "tup":
        return f.tup([build(f, x, qs, env) for x in t[1]])
    if k == "none":
        return f.tag(0, [], OPT(QB))
    if k == "oq":
        return f.tag(1, [build(f, ("leaf", "q"), qs, env)], OPT(QB))
    e = ty_of(t[2])
    return f.op(f"collections.{MK[k][1]}.new_array", [build(f, t[2], qs, env) for _ in range(t[1])], [nat(t[1]), tyarg(e)], [ty_of(t)])[0]


def open_(f, t, w, out, r):
    """take a value apart again (partly)"""
    k = t[0]
    if k == "tup" and t[1] and r.random() < .7:
        for x, y in zip(t[1], f.untup(w)):
            open_(f, x, y, out, r)
    elif k in MK and r.random() < .7 and (t[1] or k != "varr"):
        e = ty_of(t[2])
        for y in f.op(f"collections.{MK[k][1]}.unpack", [w], [nat(t[1]), tyarg(e)], [e] * t[1]):
            open_(f, t[2], y, out, r)
    else:
        out.append((t, w))


def rtype(r, d, inarr=False):
    k = r.choice(["leaf"] if d == 0 else ["leaf", "tup", "seq", "seq"])
    if k == "leaf":
        x = r.random()
        if inarr and x < .3:
            return ("oq",)
        if not inarr and x < .08:
            return (r.choice(["oq", "none"]),)
        return ("leaf", r.choice("qqqqqbfi" if not inarr else "qqqqqbfiu"))
    if k == "tup":
        return ("tup", [rtype(r, d - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))])
    t = rtype(r, d - 1, True)
    return (r.choice(["arr", "arr", "barr", "varr"]), r.choice([0, 1, 1, 2, 2, 3]), t)


def nq(t):
    k = t[0]
    if k == "leaf":
        return t[1] == "q"
    if k == "tup":
        return sum(map(nq, t[1]))
    if k in MK:
        return t[1] * nq(t[2])
    return k == "oq"


def bar(d, ws, ordered=False):
    ts = [w.ty for w in ws]
    return d.op("prelude.Barrier", ws, [listarg(map(tyarg, ts))], ts, ordered=ordered)


def within(m, f, ws, where, r):
    ts = [w.ty for w in ws]
    if where == "dfg":
        d = f.dfg(ws, ts)
        d.out(bar(d, d.ins))
        return d.outs
    if where == "call":
        g = m.func(f"g{len(m.nodes)}", ts, ts)
        g.out(bar(g, g.ins))
        o = f.call(g, ws)
        return f.call(g, o) if r.random() < .4 else o
    if where == "cond":
        a, b = f.cond(f.ins[-1], ws, ts)
        a.out(a.ins if r.random() < .5 else bar(a, bar(a, a.ins)))
        b.out(bar(b, b.ins))
        return a.outs
    if where == "cfg":
        c = f.cfg(ws, ts)
        x = c.block(ts, [[]], ts)
        x.out([x.tag(0, [], SUM([]))] + bar(x, x.ins))
        y = c.block(ts, [[]], ts)
        y.out([y.tag(0, [], SUM([]))] + list(y.ins))
        c.branch(x, 0, y)
        c.branch(y, 0, c.exit)
        return c.outs
    return bar(f, ws)


def program(r, rows, wheres):
    m = Module()
    total = min(6, sum(nq(t) for row in rows for t in row) or 1)
    f = m.main([QB] * max(1, total) + [F64, I6, TBOOL, BOOL], None)
    qs = list(f.ins[:max(1, total)])
    env = {"b": f.ins[-1], "f": f.ins[-4], "i": f.ins[-3], "tb": f.ins[-2], "u": lambda: f.tag(0, [], UNIT)}
    out = []
    k = 0
    for row, where in zip(rows, wheres):
        for j in range(len(qs)):
            if r.random() < .5:
                k += 1
                qs[j] = f.op("tket.quantum.Rz", [qs[j], f.rot(k / 16)])[0]
        r.shuffle(qs)
        ws = [build(f, t, qs, env) for t in row]
        for t, w in zip(row, within(m, f, ws, where, r)):
            open_(f, t, w, out, r)
        keep = []
        for t, w in out:
            if t == ("leaf", "q") and r.random() < .8:
                qs.append(w)
            else:
                keep.append((t, w))
        out = keep
    o = [w for _, w in out] + qs
    r.shuffle(o)
    f.out(o)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
    return m.json()


def small():
    base = [("leaf", "q"), ("leaf", "b"), ("leaf", "i"), ("oq",), ("none",)]
    one = [("tup", l) for l in ([], [base[0]], [base[1]], [base[0], base[1]], [base[1], base[0]], [base[0], base[0]], [base[0], base[3]], [base[4], base[0]], [base[3]])]
    one += [(k, n, t) for k in MK for n in (0, 1, 2, 3) for t in base[:4]]
    two = [(k, n, t) for k in MK for n in (0, 2) for t in one if t[0] == "tup" or t[1] != 1]
    two += [("tup", [t, base[0]]) for t in one] + [("tup", [base[1], t]) for t in one]
    return base + one + [t for t in two if nq(t) <= 6]


q = ("leaf", "q")
for i, t in enumerate(small()):
    r = random.Random(f"c05s{i}")
    ck.add(f"one{i}", {"hugr": program(r, [[t]], ["top"])}, {"lower": STEPS["lower"]}, O)
    if nq(t) < 6:
        ck.add(f"two{i}", {"hugr": program(r, [[q, t]], ["top"])}, {"pass": STEPS["pass"]}, O)
# two and three containers in one barrier: the qubits of all of them are in one runtime barrier
SEQ = [(k, n, ("leaf", "q")) for k in MK for n in (1, 2)] + [("arr", 2, ("oq",)), ("tup", [q, q]), ("arr", 2, ("leaf", "b")), ("arr", 1, ("arr", 2, q))]
for i, a in enumerate(SEQ):
    for j, b in enumerate(SEQ):
        for n, row in enumerate([[a, b], [a, b, a]]):
            if 0 < sum(map(nq, row)) <= 6 and (TIER != "quick" or (i + j + n) % 2 == 0):
                ck.add(f"row{i}.{j}.{n}", {"hugr": program(random.Random(f"c05r{i}.{j}.{n}"), [row], ["top"])}, {"lower": STEPS["lower"]}, O)
for s in range(500 if TIER == "quick" else 6000):
    r = random.Random(f"c05/{SEED}/{s}")
    while True:
        rows = [[rtype(r, r.choice([0, 0, 1, 2, 3])) for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 3))]
        if sum(nq(t) for row in rows for t in row) <= 8:
            break
    wh = [r.choice(["top", "top", "dfg", "cond", "call", "cfg"]) for _ in rows]
    try:
        j = program(r, rows, wh)
    except Out:
        continue
    ck.add(f"rand{s}", {"hugr": j}, {k: STEPS[k] for k in r.sample(sorted(STEPS), 1)}, O)


def ordered(r):
    """barriers and external calls, each after the one before by an order edge alone"""
    m = Module()
    e = m.decl("ext", [BOOL], [])
    f = m.main([QB] * 4 + [BOOL], [QB] * 4 + [BOOL])
    qs, b = list(f.ins[:4]), f.ins[4]
    for _ in range(r.randint(2, 5)):
        k = r.random()
        r.shuffle(qs)
        n = r.randint(1, 3)
        if k < .3:
            f.call(e, [b], ordered=True)
        elif k < .7:
            qs[:n] = bar(f, qs[:n], ordered=True)
        elif k < .85:
            t = f.tup(qs[:n])
            qs[:n] = f.untup(bar(f, [t], ordered=True)[0])
        else:
            a = f.op("collections.borrow_arr.new_array", qs[:n], [nat(n), tyarg(QB)], [BARR(n, QB)])
            qs[:n] = f.op("collections.borrow_arr.unpack", bar(f, a, ordered=True), [nat(n), tyarg(QB)], [QB] * n)
        if r.random() < .3:
            qs[0] = f.op("tket.quantum.Rz", [qs[0], f.rot(r.randint(1, 15) / 16)], ordered=r.random() < .5)[0]
    f.out(qs + [b])
    return m.json()


for s in range(80 if TIER == "quick" else 800):
    r = random.Random(f"c05o/{SEED}/{s}")
    ck.add(f"ord{s}", {"hugr": ordered(r)}, {k: STEPS[k] for k in r.sample(sorted(STEPS), 1)}, dict(O, ordered=True))
ck.run_cases()
ck.finish()
