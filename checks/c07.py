import itertools
import random
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C07", ["ReplaceBoolPass and its lowering table, BoolOp replacements, constants, sum-with-future casts, futures dup/free/read (tket-qsystem/src/replace_bools.rs, replace_bools/*)",
                   "LinearizeArray handling for arrays of opaque bools", "lazify/fold ordering in QSystemPass"],
           "every tket.bool operation on every pairing of known/unknown/measured operands, fan-out of measured bits (1..3 uses) in nested regions, opaque bools inside tuples, sums, arrays, "
           "function values and loops, 150 (thorough 1500) histories of get/set/swap/clone/discard/borrow/return on arrays of opaque bools, 120 (1200) reads of arrays, value arrays and borrow arrays by index, and 60 (500) static arrays, indices symbolic, plus random programs (quick 120, thorough 1200; <=3 qubits, <=14 statements, <=5 measurements)",
           SEM + ["programs with non-local value edges are refused by the pass (documented); they are outside the bounds"])
I6 = INT(6)
P = {"replace": [{"t": "lower_tk2"}, {"t": "replace_bool"}], "pass": [{"t": "qsystem"}]}
O = {"max_meas": 8}
HB = {"replace": P["replace"], "pass": P["pass"], "bare": [{"t": "replace_bool"}]}


def post(c, j):
    left = left_over(j, "tket.bool")
    return f"operations left: {left}" if left else None


def src(d, kind, f, qs):
    """an opaque bool of a given provenance"""
    if kind == "in":
        return f["tb"]
    if kind == "mk":
        return d.op("tket.bool.make_opaque", [f["b"]])[0]
    if kind in ("t", "f"):
        return d.load(c_tbool(kind == "t"))
    q = d.op("tket.quantum.H", [qs.pop()])[0]
    if kind == "meas":
        return d.op("tket.quantum.MeasureFree", [q], ordered=True)[0]
    raise Exception(kind)


KIN = ["in", "mk", "t", "f", "meas", "nat"]


def prog(op, ks, wrap, fan):
    m = Module()
    f = m.main([QB, QB, QB, TBOOL, BOOL], None)
    qs = list(f.ins[:3])
    env = {"tb": f.ins[3], "b": f.ins[4]}
    xs = []
    for k in ks:
        if k == "nat":
            q = f.op("tket.quantum.H", [qs.pop()])[0]
            o = f.op("tket.qsystem.Measure", [q], ordered=True)
            xs.append(o[0])
        else:
            xs.append(src(f, k, env, qs))

    def body(d, ins):
        o = d.op("tket.bool." + op, ins)
        if o[0].ty == TBOOL:
            o = [d.op("tket.bool.read", [o[0]])[0], o[0]]
        return o
    if wrap == "top":
        o = body(f, xs)
    elif wrap == "dfg":
        d = f.dfg(xs, [BOOL] if op == "read" else [BOOL, TBOOL])
        d.out(body(d, d.ins))
        o = d.outs
    elif wrap == "cond":
        a, b = f.cond(env["b"], xs, [BOOL] if op == "read" else [BOOL, TBOOL])
        a.out(body(a, a.ins))
        oo = [b.op("tket.bool.read", [b.ins[0]])[0]]
        b.out(oo if op == "read" else oo + [b.ins[-1]])
        o = a.outs
    elif wrap in ("call", "calli"):
        g = m.func("g", [TBOOL] * len(xs), [BOOL] if op == "read" else [BOOL, TBOOL])
        g.out(body(g, g.ins))
        o = f.call(g, xs) if wrap == "call" else f.calli(f.loadfn(g), xs)
    o = list(o)
    for k in range(fan):
        o.append(f.op("tket.bool.read", [xs[k % len(xs)]])[0])
        if k:
            o.append(xs[0])
    o = qs + o
    f.out(o)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
    return m.json()


r = random.Random(7)
for op in ("read", "not", "and", "or", "xor", "eq"):
    for ks in itertools.product(KIN, repeat=1 if op in ("read", "not") else 2):
        for w in ("top", "dfg", "cond", "call", "calli"):
            if len(ks) == 2 and w != "top" and TIER == "quick" and r.random() < 0.75:
                continue
            ck.add(f"{op}-{'.'.join(ks)}-{w}", {"hugr": prog(op, ks, w, 2 if w == "top" else 1)}, P, O, post=post)
F = dict(g1=3, rot=.5, g2=2, meas=2, measfree=1, natmeas=1, reset=.5, alloc=.5, bool=1, tbool=4, int=.4, tuple=1.2, dfg=1, cond=1.2, loop=.7, cfg=1, call=1.2, calli=.7, result=.4, extern=.3, arr=.3)
for s in range(120 if TIER == "quick" else 1200):
    j = Gen(f"c07/{SEED}/{s}", F, ordered=True, maxq=3, maxmeas=5).program(nq=2, copy=[TBOOL, BOOL], size=14, depth=3)
    ck.add(f"rand{s}", {"hugr": j}, HB if s % 3 == 0 else P, O, post=post if s % 3 else None)


# arrays, constants and static arrays that contain opaque bools
def bits(f, r, qs, env, n):
    out = []
    for _ in range(n):
        k = r.choice(["in", "mk", "t", "f", "meas", "meas"] if qs else ["in", "mk", "t", "f"])
        out.append(src(f, k, env, qs))
    return out


def elem(d, r, w, e):
    """wrap a bool wire into an element of the given kind"""
    if e == "b":
        return w
    if e == "tup":
        return d.op("prelude.MakeTuple", [w, d.int(6, r.randrange(5))], [listarg([tyarg(TBOOL), tyarg(I6)])], [TUP(TBOOL, I6)])[0]
    return d.tag(1, [w], OPT(TBOOL))


ETY = {"b": TBOOL, "tup": TUP(TBOOL, I6), "opt": OPT(TBOOL)}
for s in range(150 if TIER == "quick" else 1500):
    r = random.Random(f"c07a/{SEED}/{s}")
    kind = r.choice(["array", "borrow_arr"])
    ex = "collections." + kind
    mk = {"array": ARR, "borrow_arr": BARR}[kind]
    e = r.choice(["b", "b", "b", "tup", "opt"])
    T = ETY[e]
    n = r.randint(1, 3)
    m = Module()
    f = m.main([QB, QB, QB, TBOOL, BOOL, USIZE], None)
    qs = list(f.ins[:3])
    env = {"tb": f.ins[3], "b": f.ins[4]}
    ix = f.ins[5]
    o = []
    if r.random() < 0.2:
        c = [c_tbool(r.random() < .5) for _ in range(n)]
        if e != "b":
            e, T = "b", TBOOL
        a = f.load(c_arr(c, T, {"array": "array", "borrow_arr": "borrow_array"}[kind]))
    else:
        a = f.op(ex + ".new_array", [elem(f, r, w, e) for w in bits(f, r, qs, env, n)], [nat(n), tyarg(T)], [mk(n, T)])[0]
    AR = [nat(n), tyarg(T)]
    for _ in range(r.randint(1, 4)):
        i = r.choice([ix, ix, f.usize(r.randrange(n + 1))])
        k = r.choice(["get", "get", "set", "swap", "clone", "br"] if kind == "borrow_arr" else ["set", "swap", "clone"])
        if k == "get":
            x, a = f.op(ex + ".get", [a, i], AR, [OPT(T), mk(n, T)])
            o.append(x)
        elif k == "set":
            w = elem(f, r, bits(f, r, qs, env, 1)[0], e)
            t = SUM([T, mk(n, T)], [T, mk(n, T)])
            x = f.op(ex + ".set", [a, i, w], AR, [t])[0]
            c0, c1 = f.cond(x, [], [T, mk(n, T)])
            c0.out(c0.ins)
            c1.out(c1.ins)
            y, a = c0.outs
            o.append(y)
        elif k == "swap":
            t = SUM([mk(n, T)], [mk(n, T)])
            x = f.op(ex + ".swap", [a, i, f.usize(r.randrange(n))], AR, [t])[0]
            c0, c1 = f.cond(x, [], [mk(n, T)])
            c0.out(c0.ins)
            c1.out(c1.ins)
            a = c0.outs[0]
        elif k == "clone":
            a, b = f.op(ex + ".clone", [a], AR, [mk(n, T), mk(n, T)])
            if r.random() < .5:
                f.op(ex + ".discard", [b], AR, [])
            elif r.random() < .3:
                f.op("tket.guppy.drop", [b], [tyarg(mk(n, T))], [])
            else:
                o.append(b)
        elif kind == "borrow_arr":
            i = f.usize(r.randrange(n)) if r.random() < .7 else ix
            a, x = f.op(ex + ".borrow", [a, i], AR, [mk(n, T), T])
            o.append(x)
            a = f.op(ex + ".return", [a, i, r.choice([x, elem(f, r, bits(f, r, qs, env, 1)[0], e)])], AR, [mk(n, T)])[0]
    fin = r.choice(["out", "unpack", "discard"])
    if fin == "out":
        o.append(a)
    elif fin == "unpack":
        o += f.op(ex + ".unpack", [a], AR, [T] * n)
    else:
        f.op(ex + ".discard", [a], AR, [])
    o = qs + [env["tb"]] + o
    f.out(o)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
    ck.add(f"arr{s}", {"hugr": m.json()}, {"replace": P["replace"], "pass": P["pass"], "nolazy": [{"t": "qsystem", "lazy": False}]} if s % 4 == 0 else P, O)
for s in range(120 if TIER == "quick" else 1200):
    # reading arrays of every kind by index
    r = random.Random(f"c07g/{SEED}/{s}")
    kind = ["array", "value_array", "borrow_arr"][s % 3]
    ex = "collections." + kind
    mk = {"array": ARR, "borrow_arr": BARR, "value_array": VARR}[kind]
    e = r.choice(["b", "b", "tup", "opt"])
    T = ETY[e]
    n = r.randint(1, 3)
    m = Module()
    f = m.main([QB, QB, QB, TBOOL, BOOL, USIZE], None)
    qs = list(f.ins[:3])
    env = {"tb": f.ins[3], "b": f.ins[4]}
    o = []
    a = f.op(ex + ".new_array", [elem(f, r, w, e) for w in bits(f, r, qs, env, n)], [nat(n), tyarg(T)], [mk(n, T)])[0]
    for _ in range(r.randint(1, 3)):
        i = r.choice([f.ins[5], f.ins[5], f.usize(r.randrange(n + 1))])
        if r.random() < .25:
            w = elem(f, r, bits(f, r, qs, env, 1)[0], e)
            t = SUM([T, mk(n, T)], [T, mk(n, T)])
            x = f.op(ex + ".set", [a, i, w], [nat(n), tyarg(T)], [t])[0]
            c0, c1 = f.cond(x, [], [T, mk(n, T)])
            c0.out(c0.ins)
            c1.out(c1.ins)
            y, a = c0.outs
        else:
            y, a = f.op(ex + ".get", [a, i], [nat(n), tyarg(T)], [OPT(T), mk(n, T)])
        o += [y] * r.randint(0, 2)
    if r.random() < .6 or kind == "array":
        o.append(a)
    elif kind == "borrow_arr":
        f.op(ex + ".discard", [a], [nat(n), tyarg(T)], [])
    o = qs + [env["tb"]] + o
    f.out(o)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
    ck.add(f"get{s}", {"hugr": m.json()}, P, O)
for s in range(60 if TIER == "quick" else 500):
    r = random.Random(f"c07s/{SEED}/{s}")
    e = r.choice(["b", "tup", "opt", "arr"])

    def el():
        b = c_tbool(r.random() < .5)
        if e == "b":
            return b
        if e == "tup":
            return c_tuple([b, c_int(6, r.randrange(8))])
        if e == "arr":
            return c_sarr([c_tbool(r.random() < .5) for _ in range(2)], TBOOL, "in")
        return c_sum(1, [b], OPT(TBOOL)) if r.random() < .6 else c_sum(0, [], OPT(TBOOL))
    T = {"b": TBOOL, "tup": TUP(TBOOL, I6), "opt": OPT(TBOOL), "arr": SARR(TBOOL)}[e]
    m = Module()
    f = m.main([USIZE, TBOOL], None)
    a = f.load(c_sarr([el() for _ in range(r.randint(1, 4))], T))
    o = []
    for _ in range(r.randint(1, 2)):
        i = r.choice([f.ins[0], f.usize(r.randrange(4))])
        x = f.op("collections.static_array.get", [a, i], [tyarg(T)], [OPT(T)])[0]
        if e == "arr":
            c0, c1 = f.cond(x, [], [OPT(TBOOL)])
            c0.out([c0.tag(0, [], OPT(TBOOL))])
            c1.out(c1.op("collections.static_array.get", [c1.ins[0], c1.usize(r.randrange(3))], [tyarg(TBOOL)], [OPT(TBOOL)]))
            x = c0.outs[0]
        o.append(x)
    o.append(f.op("collections.static_array.len", [a], [tyarg(T)], [USIZE])[0])
    f.out(o)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
    ck.add(f"static{s}", {"hugr": m.json()}, P, O)
ck.run_cases()
ck.finish()
