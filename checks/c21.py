import random
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

I6 = INT(6)
ck = Check("C21", ["LowerDropsPass (tket-qsystem/src/lower_drops.rs)", "QSystemPass::lower_drops and linearize_arrays (tket-qsystem/src/lib.rs)", "ReplaceBoolPass replacements of array clone/discard (tket-qsystem/src/replace_bools.rs)"],
           "random programs (quick 260, thorough 2600) that build tuples, options, arrays and nested arrays of bits, opaque (measured) bits, lazy results, integers and floats, copy them, drop or discard some copies "
           "explicitly and use the others; value arrays copied (twice at most, see findings) and discarded implicitly; in nested regions and generic functions; all inputs and outcomes symbolic",
           SEM)
P = {"pass": [{"t": "qsystem"}], "strict": [{"t": "qsystem", "lazy": False}]}


def post(c, j):
    left = left_over(j, "tket.guppy")
    return f"operations left: {left}" if left else None


def leaf(f, r, k, env, qs):
    if k == "tb":
        if len(qs) > 1 and r.random() < .6:
            return f.op("tket.qsystem.Measure" if r.random() < .4 else "tket.quantum.MeasureFree", [f.op("tket.quantum.H", [qs.pop()])[0]], ordered=True)[0]
        return env["tb"]
    if k == "fut":
        q, x = f.op("tket.qsystem.LazyMeasureReset", [f.op("tket.quantum.H", [qs.pop()])[0]], ordered=True)
        qs.insert(0, q)
        return x
    return env[k]


def build(f, r, ty, env, qs):
    k = ty[0]
    if k == "leaf":
        return leaf(f, r, ty[1], env, qs)
    ws = [build(f, r, t, env, qs) for t in ty[1]]
    if k == "tup":
        return f.tup(ws)
    if k == "opt":
        return f.tag(1, ws, OPT(ws[0].ty)) if not linear(ws[0].ty) or r.random() < .7 else f.tag(1, ws, OPT(ws[0].ty))
    mk, ex = {"arr": (ARR, "array"), "barr": (BARR, "borrow_arr"), "varr": (VARR, "value_array")}[k]
    n = len(ws)
    return f.op(f"collections.{ex}.new_array", ws, [nat(n), tyarg(ws[0].ty)], [mk(n, ws[0].ty)])[0]


def rtype(r, d, value, futs):
    k = r.choice(["leaf"] if d == 0 else ["leaf", "tup", "opt", "seq", "seq"])
    if k == "leaf":
        if futs[0] and r.random() < .25:
            futs[0] -= 1
            return ("leaf", "fut")
        return ("leaf", r.choice(["tb", "tb", "b", "i", "f"]))
    if k == "tup":
        return ("tup", [rtype(r, d - 1, value, futs) for _ in range(r.randint(1, 3))])
    if k == "opt":
        return ("opt", [rtype(r, d - 1, value, futs)])
    f0 = [0]
    t = rtype(r, d - 1, value, f0)
    return ("varr" if value else r.choice(["barr", "barr", "arr"]), [t] * r.randint(1, 2))


def has_arr(ty):
    return ty[0] != "leaf" and (ty[0] == "varr" or any(has_arr(t) for t in ty[1]))


for s in range(260 if TIER == "quick" else 2600):
    r = random.Random(f"c21/{SEED}/{s}")
    value = s % 3 == 0
    m = Module()
    f = m.main([QB, QB, QB, TBOOL, BOOL, I6, F64], None)
    qs = list(f.ins[:3])
    env = {"tb": f.ins[3], "b": f.ins[4], "i": f.ins[5], "f": f.ins[6]}
    out = []
    for _ in range(r.randint(1, 3)):
        ty = rtype(r, r.randint(1, 3), value, [0 if value else 1])
        w = build(f, r, ty, env, qs)
        where = r.choice(["top", "dfg", "cond", "call", "gen"])

        def drop(d, x):
            d.op("tket.guppy.drop", [x], [tyarg(x.ty)], [])
        if linear(w.ty):
            keep = None
            T = w.ty
            if T.get("id") in ("array", "borrow_array") and not any(linear(a["ty"]) for a in T["args"] if a["tya"] == "Type") and r.random() < .5:
                ex = "collections." + {"array": "array", "borrow_array": "borrow_arr"}[T["id"]]
                w, keep = f.op(ex + ".clone", [w], T["args"], [T, T])
                if r.random() < .4:
                    f.op(ex + ".discard", [w], T["args"], [])
                    out.append(keep)
                    continue
            if keep is not None:
                out.append(keep)
        elif r.random() < .7:
            out.append(w)
            if not has_arr(ty) and r.random() < .4:
                out.append(w)
        T = w.ty
        if where == "top":
            drop(f, w)
        elif where == "dfg":
            d = f.dfg([w], [])
            drop(d, d.ins[0])
            d.out([])
        elif where == "cond":
            a, b = f.cond(env["b"], [w], [])
            drop(a, a.ins[0])
            a.out([])
            if r.random() < .5:
                drop(b, b.ins[0])
            else:
                e = b.dfg([b.ins[0]], [])
                drop(e, e.ins[0])
                e.out([])
            b.out([])
        elif where == "call":
            g = m.func(f"g{len(m.nodes)}", [T], [])
            drop(g, g.ins[0])
            g.out([])
            f.call(g, [w])
        else:
            d = f.dfg([w], [T])
            d.out([d.ins[0]])
            drop(f, d.outs[0])
    o = qs + out
    f.out(o)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
    ck.add(f"rand{s}", {"hugr": m.json()}, P if s % 2 else {"pass": P["pass"]}, {"max_meas": 6}, post=post)
m = Module()
f = m.main([BOOL, BOOL], [VARR(2, BOOL)] * 3)
w = f.op("collections.value_array.new_array", list(f.ins), [nat(2), tyarg(BOOL)], [VARR(2, BOOL)])[0]
f.out([w, w, w])
ck.add("varr-copied-thrice", {"hugr": m.json()}, P, {}, post=post)
ck.run_cases()
ck.finish()
