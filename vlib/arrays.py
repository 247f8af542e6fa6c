"""Random programs over arrays, borrow arrays, tuples and options with symbolic indices and contents."""
import random
from .hg import *

I6 = INT(6)
MK = {"array": (ARR, "collections.array"), "borrow": (BARR, "collections.borrow_arr"), "value": (VARR, "collections.value_array")}


class AGen:
    """a program over arrays; contents leave through result operations, qubits through the outputs"""

    def __init__(self, seed, kinds=("array", "borrow"), elems="bif", nq=0, misuse=.1, nest=.2, sym=.5, size=8, maxlen=3, hof=True, guppy=False):
        self.r = random.Random(seed)
        self.kinds, self.elems, self.nq, self.misuse, self.nest, self.sym, self.size, self.maxlen, self.hof, self.guppy = kinds, elems, nq, misuse, nest, sym, size, maxlen, hof, guppy
        self.tags = 0
        self.nm = 0

    # ---- values
    def leafty(self):
        return {"b": BOOL, "i": I6, "f": F64, "t": TBOOL, "u": USIZE}[self.r.choice(self.elems)]

    def elemty(self, depth=1):
        if depth and self.r.random() < self.nest:
            k = self.r.random()
            if k < .4:
                return TUP(self.leafty(), self.leafty())
            if k < .6:
                return OPT(self.leafty())
            if k < .75:
                return SUM([BOOL], [I6, BOOL])
            kd = self.r.choice([x for x in self.kinds if x != "value"] or ["array"])
            return MK[kd][0](self.r.randint(1, 2), self.elemty(0))
        return self.leafty()

    def mk(self, d, ty):
        r = self.r
        if ty == BOOL:
            return r.choice(self.env["b"]) if r.random() < .8 else d.bool(r.random() < .5)
        if ty == TBOOL:
            return d.op("tket.bool.make_opaque", [self.mk(d, BOOL)])[0]
        if ty == I6:
            return r.choice(self.env["i"]) if r.random() < .6 else d.int(6, r.choice([0, 1, 7, 2**63]))
        if ty == USIZE:
            return d.op("arithmetic.conversions.itousize", [self.mk(d, I6)])[0]
        if ty == F64:
            return r.choice(self.env["f"]) if r.random() < .6 else d.f64(r.choice([0.5, -3.0, 1e10]))
        if ty["t"] == "Sum":
            rows = rows_of(ty)
            k = r.randrange(len(rows))
            return d.tag(k, [self.mk(d, t) for t in rows[k]], ty) if len(rows) > 1 else d.tup([self.mk(d, t) for t in rows[0]])
        n, el = ty["args"][0]["n"], ty["args"][1]["ty"]
        return d.op(self.ex(ty) + ".new_array", [self.mk(d, el) for _ in range(n)], ty["args"], [ty])[0]

    def ex(self, ty):
        return {"array": "collections.array", "borrow_array": "collections.borrow_arr", "value_array": "collections.value_array"}[ty["id"]]

    def with_n(self, ty, n):
        return opq(ty["extension"], ty["id"], [nat(n), ty["args"][1]], ty["bound"])

    def index(self, d, n):
        r = self.r
        if r.random() < self.sym:
            w = r.choice(self.env["i"])
            if r.random() < .7:
                w = d.op("arithmetic.int.iand", [w, d.int(6, 1 if n < 3 else 3)], [nat(6)])[0]
            return d.op("arithmetic.conversions.itousize", [w])[0]
        return d.usize(r.randrange(n) if n and r.random() > self.misuse else r.choice([n, n + 1, 2**63]))

    def tag(self):
        self.tags += 1
        return strarg(self.r.choice([f"r{self.tags}", f"a longer tag {self.tags}", f"µ{self.tags}"]))

    # ---- observing
    def show(self, d, w):
        """emit a value through result operations (consumes it)"""
        t = w.ty
        if t == BOOL:
            d.op("tket.result.result_bool", [w], [self.tag()], [], ordered=True)
        elif t == TBOOL:
            self.show(d, d.op("tket.bool.read", [w])[0])
        elif t == I6:
            if self.r.random() < .5:
                d.op("tket.result.result_int", [w], [self.tag(), nat(6)], [], ordered=True)
            else:
                d.op("tket.result.result_uint", [w], [self.tag(), nat(6)], [], ordered=True)
        elif t == USIZE:
            self.show(d, d.op("arithmetic.conversions.ifromusize", [w])[0])
        elif t == F64:
            d.op("tket.result.result_f64", [w], [self.tag()], [], ordered=True)
        elif t["t"] == "Sum":
            rows = rows_of(t)
            if len(rows) == 1:
                for x in d.untup(w):
                    self.show(d, x)
            else:
                cs = d.cond(w, [], [], ordered=True)
                for c in cs:
                    for x in c.ins:
                        self.show(c, x)
                    c.out([])
        elif t["t"] == "Q":
            self.qs.append(w)
        else:
            n, el = t["args"][0]["n"], t["args"][1]["ty"]
            if t["id"] == "array" and el in (BOOL, I6, F64) and self.r.random() < .6 and not isinstance(el, tuple):
                k = {"b": "bool", "i": "int", "f": "f64"}["b" if el == BOOL else "i" if el == I6 else "f"]
                if k == "int" and self.r.random() < .5:
                    k = "uint"
                d.op("tket.result.result_array_" + k, [w], [self.tag(), nat(n)] + ([nat(6)] if k in ("int", "uint") else []), [], ordered=True)
                return
            for x in d.op(self.ex(t) + ".unpack", [w], t["args"], [el] * n, ordered=True):
                self.show(d, x)

    def sink(self, d, w):
        if linear_q(w.ty):
            self.show(d, w)
        elif self.r.random() < .8:
            self.show(d, w)
        else:
            self.drop(d, w)

    def drop(self, d, w):
        t = w.ty
        if not linear(t):
            return
        if t["t"] == "Opaque" and t["id"] in ("array", "borrow_array") and not linear(t["args"][1]["ty"]):
            if t["args"][0]["n"] == 0:
                d.op(self.ex(t) + ".discard_empty", [w], t["args"][1:], [], ordered=True)
            else:
                d.op(self.ex(t) + ".discard", [w], t["args"], [], ordered=True)
            return
        if self.guppy:
            d.op("tket.guppy.drop", [w], [tyarg(t)], [])
        else:
            self.show(d, w)

    # ---- statements over one array
    def stmt(self, d, w):
        """-> new array wire (or None when it was used up)"""
        r = self.r
        t = w.ty
        ex, A = self.ex(t), t["args"]
        n, el = A[0]["n"], A[1]["ty"]
        lin = linear(el)
        q = linear_q(el)
        ops = ["swap", "pop_left", "pop_right", "wrap"]
        if n:
            ops += ["set", "set", "unpack"]
        if not lin:
            ops += ["get", "get"]
            if t["id"] != "value_array":
                ops += ["clone"]
        if t["id"] == "borrow_array":
            ops += ["borrow", "borrow", "borrow", "isb", "toarr"]
        if t["id"] == "array":
            ops += ["frarr"] if "borrow" in self.kinds else []
        if self.hof:
            ops += ["scan"]
        k = r.choice(ops)
        if k == "swap" and n:
            s = d.op(ex + ".swap", [w, self.index(d, n), self.index(d, n)], A, [SUM([t], [t])], ordered=True)[0]
            a, b = d.cond(s, [], [t, BOOL], ordered=True)
            a.out([a.ins[0], a.bool(False)])
            b.out([b.ins[0], b.bool(True)])
            self.env["b"].append(a.outs[1])
            return a.outs[0]
        if k in ("pop_left", "pop_right"):
            if n == 0:
                return w
            t2 = self.with_n(t, n - 1)
            s = d.op(ex + "." + k, [w], A, [SUM([], [el, t2])], ordered=True)[0]
            a, b = d.cond(s, [], [el, t2], ordered=True)
            a.out(a.panic(9, "empty", [], [el, t2], ordered=True))
            b.out(b.ins)
            self.sink(d, a.outs[0])
            return a.outs[1]
        if k == "set":
            v = self.mk(d, el) if not q else None
            if v is None:
                v = self.qs.pop() if self.qs else None
                if v is None:
                    return w
            s = d.op(ex + ".set", [w, self.index(d, n), v], A, [SUM([el, t], [el, t])], ordered=True)[0]
            a, b = d.cond(s, [], [el, t, BOOL], ordered=True)
            a.out(a.ins + [a.bool(False)])
            b.out(b.ins + [b.bool(True)])
            self.env["b"].append(a.outs[2])
            self.sink(d, a.outs[0])
            return a.outs[1]
        if k == "get":
            s, w = d.op(ex + ".get", [w, self.index(d, n)], A, [OPT(el), t], ordered=True)
            self.show(d, s)
            return w
        if k == "clone":
            w, w2 = d.op(ex + ".clone", [w], A, [t, t], ordered=True)
            self.sink(d, w2)
            return w
        if k == "unpack":
            xs = d.op(ex + ".unpack", [w], A, [el] * n, ordered=True)
            if r.random() < .5:
                xs = xs[::-1]
            return d.op(ex + ".new_array", xs, A, [t])[0]
        if k == "borrow":
            if n == 0:
                return w
            i = self.index(d, n)
            w, x = d.op(ex + ".borrow", [w, i], A, [t, el], ordered=True)
            if q:
                x = d.op("tket.quantum." + r.choice(["H", "T", "X"]), [x], ordered=True)[0]
            if r.random() < .3 and n > 1:
                j = self.index(d, n)
                w, y = d.op(ex + ".borrow", [w, j], A, [t, el], ordered=True)
                if q:
                    x, y = d.op("tket.quantum.CX", [x, y], ordered=True)
                if r.random() < .3:
                    i, j = j, i
                w = d.op(ex + ".return", [w, j, y], A, [t], ordered=True)[0]
            elif r.random() < .3:
                w, b = d.op(ex + ".is_borrowed", [w, self.index(d, n)], A, [t, BOOL], ordered=True)
                self.show(d, b)
            if r.random() < self.misuse:
                i = self.index(d, n)
            return d.op(ex + ".return", [w, i, x], A, [t], ordered=True)[0]
        if k == "isb":
            w, b = d.op(ex + ".is_borrowed", [w, self.index(d, n)], A, [t, BOOL], ordered=True)
            self.show(d, b)
            return w
        if k == "toarr":
            return d.op(ex + ".to_array", [w], A, [ARR(n, el)], ordered=True)[0]
        if k == "frarr":
            return d.op("collections.borrow_arr.from_array", [w], A, [BARR(n, el)], ordered=True)[0]
        if k == "scan" and el in (BOOL, I6, F64):
            f = self.fn([el, BOOL], [el, BOOL])
            b = self.mk(d, BOOL)
            w, b = d.op(ex + ".scan", [w, d.loadfn(f), b], [A[0], A[1], tyarg(el), listarg([tyarg(BOOL)])], [t, BOOL], ordered=True)
            self.env["b"].append(b)
            return w
        if k == "wrap":
            return self.wrap(d, w)
        return w

    def fn(self, ins, outs):
        """(el, bool) -> (el, bool)"""
        self.nm += 1
        f = self.m.func(f"g{self.nm}", ins, outs)
        x, b = f.ins
        if x.ty == BOOL:
            y = f.op("logic." + self.r.choice(["And", "Or", "Xor"]), [x, b])[0]
            z = f.op("logic.Xor", [x, b])[0]
        elif x.ty == I6:
            y = f.op("arithmetic.int.iadd", [x, f.int(6, 1)], [nat(6)])[0]
            z = f.op("logic.Xor", [b, f.op("arithmetic.int.ilt_u", [x, f.int(6, 5)], [nat(6)])[0]])[0]
        else:
            y = f.op("arithmetic.float.fadd", [x, f.f64(1.0)])[0]
            z = f.op("logic.Not", [b])[0]
        f.out([y, z] if self.r.random() < .7 else [x, z])
        return f

    def wrap(self, d, w):
        """through a nested region"""
        r = self.r
        t = w.ty
        k = r.choice(["dfg", "call", "cond", "tuple", "loop"])
        if k == "dfg":
            x = d.dfg([w], [t], ordered=True)
            x.out([x.ins[0]])
            return x.outs[0]
        if k == "call":
            self.nm += 1
            f = self.m.func(f"g{self.nm}", [t], [t])
            f.out(f.ins)
            return d.call(f, [w], ordered=True)[0]
        if k == "cond":
            if linear(t["args"][1]["ty"]) or t["args"][0]["n"] == 0:
                return w
            a, b = d.cond(self.mk(d, BOOL), [w], [t], ordered=True)
            a.out(a.ins)
            ex, A = self.ex(t), t["args"]
            xs = b.op(ex + ".unpack", [b.ins[0]], A, [A[1]["ty"]] * A[0]["n"], ordered=True)
            b.out(b.op(ex + ".new_array", xs[::-1], A, [t]))
            return a.outs[0]
        if k == "tuple":
            return d.untup(d.tup([w]))[0]
        # a loop of two rounds carrying the array
        body = d.loop([d.int(6, 0)], [w], [], ordered=True)
        i2 = body.op("arithmetic.int.iadd", [body.ins[0], body.int(6, 1)], [nat(6)])[0]
        lt = body.op("arithmetic.int.ilt_u", [i2, body.int(6, 2)], [nat(6)])[0]
        stop, go = body.cond(lt, [i2], [body.sum])
        stop.out([stop.tag(1, [], body.sum)])
        go.out([go.tag(0, [go.ins[0]], body.sum)])
        x = body.ins[1]
        if t["id"] == "borrow_array" and t["args"][0]["n"]:
            ii = body.usize(0)
            x, y = body.op("collections.borrow_arr.borrow", [x, ii], t["args"], [t, t["args"][1]["ty"]], ordered=True)
            if y.ty["t"] == "Q":
                y = body.op("tket.quantum.T", [y], ordered=True)[0]
            x = body.op("collections.borrow_arr.return", [x, ii, y], t["args"], [t], ordered=True)[0]
        body.out([stop.outs[0], x])
        return body.outs[0]

    # ---- programs
    def program(self):
        r = self.r
        self.m = Module()
        ins = [QB] * self.nq + [BOOL, BOOL, I6, I6, F64]
        f = self.m.main(ins, None)
        self.qs = list(f.ins[:self.nq])
        i = self.nq
        self.env = {"b": [f.ins[i], f.ins[i + 1]], "i": [f.ins[i + 2], f.ins[i + 3]], "f": [f.ins[i + 4]]}
        arrs = []
        if self.nq:
            k = r.randint(1, self.nq)
            ws, self.qs = self.qs[:k], self.qs[k:]
            mk, ex = MK[r.choice(self.kinds)]
            arrs.append(f.op(ex + ".new_array", ws, [nat(k), tyarg(QB)], [mk(k, QB)])[0])
        while len(arrs) < 1 or r.random() < .4:
            el = self.elemty()
            mk, ex = MK[r.choice(self.kinds)]
            if mk is VARR and linear(el):
                continue
            n = r.randint(0 if r.random() < .1 else 1, self.maxlen)
            T = mk(n, el)
            k = r.random()
            if k < .15 and self.hof and el in (BOOL, I6, F64):
                self.nm += 1
                g = self.m.func(f"g{self.nm}", [], [el])
                g.out([g.bool(True) if el == BOOL else g.int(6, 3) if el == I6 else g.f64(.25)])
                arrs.append(f.op(ex + ".repeat", [f.loadfn(g)], [nat(n), tyarg(el)], [T], ordered=True)[0])
            elif k < .3 and mk is BARR and n:
                w = f.op(ex + ".new_all_borrowed", [], T["args"], [T])[0]
                order = list(range(n))
                r.shuffle(order)
                if r.random() < self.misuse:
                    order = order[:-1]
                for j in order:
                    w = f.op(ex + ".return", [w, f.usize(j), self.mk(f, el)], T["args"], [T], ordered=True)[0]
                arrs.append(w)
            else:
                arrs.append(self.mk(f, T))
        for _ in range(self.size):
            if not arrs:
                break
            k = r.randrange(len(arrs))
            arrs[k] = self.stmt(f, arrs[k])
        for w in arrs:
            if w.ty["id"] == "borrow_array" and linear_q(w.ty) and r.random() < .5:
                n, A = w.ty["args"][0]["n"], w.ty["args"]
                for j in range(n):
                    w, q = f.op("collections.borrow_arr.borrow", [w, f.usize(j)], A, [w.ty, QB], ordered=True)
                    self.qs.append(q)
                f.op("collections.borrow_arr.discard_all_borrowed", [w], A, [], ordered=True)
            else:
                self.sink(f, w)
        f.out(self.qs)
        self.m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in self.qs]
        return self.m.json()


def linear_q(t):
    k = t["t"]
    if k == "Q":
        return True
    if k == "Opaque":
        return any(linear_q(a["ty"]) for a in t["args"] if a["tya"] == "Type")
    return k == "Sum" and t["s"] != "Unit" and any(linear_q(x) for r in t["rows"] for x in r)
