"""Random typed programs (HUGRs) over the supported operations.  Deterministic in the seed."""
import random
from .hg import *

G1 = ["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg"]
GR = ["Rx", "Ry", "Rz"]
G2 = ["CX", "CY", "CZ"]
I6 = INT(6)


def key(t):
    return json.dumps(t, sort_keys=True)


class Env:
    def __init__(self):
        self.w = {}

    def add(self, w):
        self.w.setdefault(key(w.ty), []).append(w)

    def addall(self, ws):
        for w in ws:
            self.add(w)

    def of(self, t):
        return self.w.setdefault(key(t), [])


class Gen:
    """feats: dict name->weight.  Known names:
    g1 rot g2 crz ccx meas measfree reset alloc tryalloc free bool tbool int float rotx tuple dfg cond loop cfg call
    calli arr result extern barrier panic nonlocal opt"""

    def __init__(self, seed, feats, consts=(0.25, 0.5, -1.5, 0.125, 1.0, 0.75), ordered=False, maxq=4, native=False, maxmeas=4, maxrot=6):
        self.r = random.Random(f"gen/{seed}")
        self.f = dict(feats)
        self.consts = consts
        self.ord = ordered
        # containers that may hold side effects take part in the region's order
        self.cord = ordered or any(feats.get(x) for x in ("extern", "result", "panic", "tryalloc"))
        self.maxq = maxq
        self.nf = 0
        self.funcs = []
        self.native = native
        self.meas = 0
        self.maxmeas = maxmeas
        self.tagn = 0
        self.loops = 0
        self.nrot = 0
        self.maxrot = maxrot

    # ------------------------------------------------------------ values
    def rot(self, d, e):
        ws = e.of(ROT)
        self.nrot += 1
        if ws and self.nrot <= self.maxrot and self.r.random() < 0.75:
            w = self.r.choice(ws)
        else:
            w = d.rot(self.r.choice(self.consts))
            if self.r.random() < 0.3:
                e.add(w)
        if self.f.get("rotx") and self.r.random() < 0.3:
            w2 = self.rot(d, e)
            w = d.op("tket.rotation.radd", [w, w2])[0]
            e.add(w)
        return w

    def fl(self, d, e):
        ws = e.of(F64)
        self.nrot += 1
        if ws and self.nrot <= 2 * self.maxrot and self.r.random() < 0.8:
            return self.r.choice(ws)
        w = d.f64(self.r.choice(self.consts))
        e.add(w)
        return w

    def bool(self, d, e):
        ws = e.of(BOOL)
        if ws and self.r.random() < 0.9:
            return self.r.choice(ws)
        tb = e.of(TBOOL)
        if tb and self.r.random() < 0.9:
            w = d.op("tket.bool.read", [self.r.choice(tb)])[0]
            e.add(w)
            return w
        x = self.r.random()
        # a tag or a loaded constant
        w = d.bool(x < 0.5) if int(x * 4) % 2 else d.load(c_bool(x < 0.5))
        e.add(w)
        return w

    def tbool(self, d, e):
        ws = e.of(TBOOL)
        if ws and self.r.random() < 0.9:
            return self.r.choice(ws)
        if self.r.random() < 0.5:
            w = d.load(c_tbool(self.r.random() < 0.5))
        else:
            w = d.op("tket.bool.make_opaque", [self.bool(d, e)])[0]
        e.add(w)
        return w

    def int(self, d, e):
        ws = e.of(I6)
        if ws and self.r.random() < 0.8:
            return self.r.choice(ws)
        w = d.int(6, self.r.choice([0, 1, 2, 3, 7]))
        e.add(w)
        return w

    def copyable(self, d, e):
        k = self.r.choice(["bool", "rot"] + (["tbool"] if self.f.get("tbool") else []) + (["int"] if self.f.get("int") else [])
                          + (["fl"] if self.f.get("float") else []))
        return getattr(self, k)(d, e)

    def qs(self, e, n):
        q = e.of(QB)
        if len(q) < n:
            return None
        self.r.shuffle(q)
        out = [q.pop() for _ in range(n)]
        return out

    # ------------------------------------------------------------ statements
    def stmt(self, d, e, depth):
        names = [n for n, w in self.f.items() if w and hasattr(self, "s_" + n)]
        ws = [self.f[n] for n in names]
        for _ in range(8):
            n = self.r.choices(names, ws)[0]
            if depth <= 0 and n in ("dfg", "cond", "loop", "cfg", "call", "calli", "panic"):
                continue
            if getattr(self, "s_" + n)(d, e, depth):
                return True
        return False

    def q1(self, d, e, name, extra=()):
        q = self.qs(e, 1)
        if not q:
            return False
        e.addall(d.op("tket.quantum." + name, q + list(extra), ordered=self.ord))
        return True

    def s_g1(self, d, e, depth):
        return self.q1(d, e, self.r.choice(G1))

    def s_rot(self, d, e, depth):
        if not e.of(QB):
            return False
        return self.q1(d, e, self.r.choice(GR), [self.rot(d, e)])

    def s_nat(self, d, e, depth):
        """native gates"""
        q = e.of(QB)
        k = self.r.choice(["Rz", "PhasedX", "ZZPhase"])
        n = 2 if k == "ZZPhase" else 1
        if len(q) < n:
            return False
        a = [self.fl(d, e) for _ in range(2 if k == "PhasedX" else 1)]
        qs = self.qs(e, n)
        e.addall(d.op("tket.qsystem." + k, qs + a, ordered=self.ord))
        return True

    def s_g2(self, d, e, depth):
        q = self.qs(e, 2)
        if not q:
            return False
        e.addall(d.op("tket.quantum." + self.r.choice(G2), q, ordered=self.ord))
        return True

    def s_crz(self, d, e, depth):
        q = self.qs(e, 2)
        if not q:
            return False
        e.addall(d.op("tket.quantum.CRz", q + [self.rot(d, e)], ordered=self.ord))
        return True

    def s_ccx(self, d, e, depth):
        q = self.qs(e, 3)
        if not q:
            return False
        e.addall(d.op("tket.quantum.Toffoli", q, ordered=self.ord))
        return True

    def canmeas(self):
        if self.meas >= self.maxmeas:
            return False
        self.meas += 1
        return True

    def s_meas(self, d, e, depth):
        if not e.of(QB) or not self.canmeas():
            return False
        return self.q1(d, e, "Measure")

    def s_measfree(self, d, e, depth):
        if len(e.of(QB)) < 2 or not self.canmeas():
            return False
        return self.q1(d, e, "MeasureFree")

    def s_natmeas(self, d, e, depth):
        """native measurements: opaque-bool results"""
        if len(e.of(QB)) < 2 or not self.canmeas():
            return False
        k = self.r.choice(["Measure", "MeasureReset", "LazyMeasure"])
        o = d.op("tket.qsystem." + k, self.qs(e, 1), ordered=self.ord)
        if k == "LazyMeasure":
            if self.r.random() < 0.3:
                o = d.op("tket.futures.Dup", o, [tyarg(BOOL)], [o[0].ty] * 2)
            e.addall([d.op("tket.futures.Read", [w], [tyarg(BOOL)], [BOOL])[0] for w in o])
        else:
            e.addall(o)
        return True

    def s_reset(self, d, e, depth):
        return self.q1(d, e, "Reset")

    def s_alloc(self, d, e, depth):
        if len(e.of(QB)) >= self.maxq:
            return False
        e.addall(d.op("tket.quantum.QAlloc", ordered=self.ord))
        return True

    def s_free(self, d, e, depth):
        if len(e.of(QB)) < 2:
            return False
        d.op("tket.quantum.QFree", self.qs(e, 1), ordered=self.ord)
        return True

    def s_tryalloc(self, d, e, depth):
        if len(e.of(QB)) >= self.maxq:
            return False
        s = d.op("tket.quantum.TryQAlloc", ordered=self.ord)[0]
        a, b = d.cond(s, [], [QB], ordered=self.cord)
        r = a.panic(7, "no qubit", [], [QB], ordered=self.ord)
        a.out(r)
        b.out(b.ins)
        e.addall(a.outs)
        return True

    def s_bool(self, d, e, depth):
        k = self.r.choice(["And", "Or", "Xor", "Eq" if not self.f.get("noeq") else "Xor", "Not"])
        x = [self.bool(d, e) for _ in range(1 if k == "Not" else 2)]
        e.addall(d.op("logic." + k, x))
        return True

    def s_tbool(self, d, e, depth):
        k = self.r.choice(["and", "or", "xor", "eq", "not", "read"])
        x = [self.tbool(d, e) for _ in range(1 if k in ("not", "read") else 2)]
        e.addall(d.op("tket.bool." + k, x))
        return True

    def s_int(self, d, e, depth):
        k = self.r.choice(["iadd", "isub", "ilt_u", "ieq", "iadd", "iand", "ixor"])
        e.addall(d.op("arithmetic.int." + k, [self.int(d, e), self.int(d, e)], [nat(6)]))
        return True

    def s_float(self, d, e, depth):
        k = self.r.choice(["fadd", "fsub", "fmul", "fneg", "flt"])
        a = [self.fl(d, e) for _ in range(1 if k == "fneg" else 2)]
        e.addall(d.op("arithmetic.float." + k, a))
        if self.r.random() < 0.6:
            e.addall(d.op("tket.rotation.from_halfturns_unchecked", [self.fl(d, e)]))
        return True

    def s_floatx(self, d, e, depth):
        k = self.r.choice(["fdiv", "fmax", "fmin", "fabs", "ffloor", "fceil", "fround", "fpow"])
        a = [self.fl(d, e)]
        if k not in ("fabs", "ffloor", "fceil", "fround"):
            a.append(d.f64(self.r.choice([2.0, 3.0, 0.5, 1.0, 3.141592653589793])) if k in ("fpow", "fdiv") else self.fl(d, e))
        e.addall(d.op("arithmetic.float." + k, a))
        return True

    def s_tuple(self, d, e, depth):
        vals = [self.copyable(d, e) for _ in range(self.r.randint(1, 2))]
        q = self.qs(e, 1)
        if q:
            vals.insert(self.r.randint(0, len(vals)), q[0])
        t = d.tup(vals)
        if self.r.random() < 0.3:
            t = d.untup(d.tup([t]))[0]
        o = d.untup(t)
        if self.f.get("tupuse"):
            # every unpacked value is used (see the known finding about unused ones)
            for w in o:
                if w.ty != QB:
                    d.tup([w])
        e.addall(o)
        return True

    def s_barrier(self, d, e, depth):
        n = self.r.randint(1, 2)
        q = self.qs(e, n)
        if not q:
            return False
        ts = [w.ty for w in q]
        e.addall(d.op("prelude.Barrier", q, [listarg(map(tyarg, ts))], ts, ordered=self.ord))
        return True

    def s_result(self, d, e, depth):
        k = self.r.choice(["bool", "int", "f64"]) if self.f.get("int") else "bool"
        self.tagn += 1
        tag = strarg(f"r{self.tagn}")
        if k == "bool":
            d.op("tket.result.result_bool", [self.bool(d, e)], [tag], [], ordered=True)
        elif k == "int":
            d.op("tket.result.result_int", [self.int(d, e)], [tag, nat(6)], [], ordered=True)
        else:
            d.op("tket.result.result_f64", [self.fl(d, e)], [tag], [], ordered=True)
        return True

    def s_extern(self, d, e, depth):
        if not getattr(self, "ext", None):
            return False
        f = self.r.choice(self.ext)
        ins = [self.val(d, e, t) for t in f.fins]
        e.addall(d.call(f, ins, ordered=True))
        return True

    def val(self, d, e, t):
        for tt, fn in ((BOOL, self.bool), (TBOOL, self.tbool), (ROT, self.rot), (F64, self.fl), (I6, self.int)):
            if t == tt:
                return fn(d, e)
        raise Exception("val")

    # nested regions: pass some qubits and copyables, get qubits and one more value back
    def pick(self, d, e):
        nq = min(len(e.of(QB)), self.r.randint(1, 2))
        q = self.qs(e, nq) if nq else []
        c = [self.copyable(d, e) for _ in range(self.r.randint(0, 2))]
        return q, c

    def inner(self, d, nq, cs, outer, size, depth, want):
        """fill a nested body whose ins are qubits ++ copyables; returns output wires (nq qubits ++ want values)"""
        e = Env()
        e.addall(d.ins)
        if outer is not None and self.f.get("nonlocal"):
            for t in (BOOL, ROT, F64, I6) + ((TBOOL,) if self.f["nonlocal"] > 1 else ()):
                for w in outer.of(t):
                    e.add(w)
        for _ in range(self.r.randint(1, size)):
            self.stmt(d, e, depth)
        q = e.of(QB)
        while len(q) > nq:
            d.op("tket.quantum.QFree", [q.pop()], ordered=self.ord)
        while len(q) < nq:
            q += d.op("tket.quantum.QAlloc", ordered=self.ord)
        q = list(q)
        if self.r.random() < 0.3:
            self.r.shuffle(q)
        return q + [self.val(d, e, t) for t in want]

    def wants(self):
        return self.r.choice([[], [BOOL], [ROT]] + ([[TBOOL]] if self.f.get("tbool") else []))

    def s_dfg(self, d, e, depth):
        q, c = self.pick(d, e)
        want = self.wants()
        x = d.dfg(q + c, [QB] * len(q) + want, ordered=self.cord)
        x.out(self.inner(x, len(q), c, e, 3, depth - 1, want))
        e.addall(x.outs)
        return True

    def s_cond(self, d, e, depth):
        b = self.bool(d, e)
        q, c = self.pick(d, e)
        want = self.wants()
        cs = d.cond(b, q + c, [QB] * len(q) + want, ordered=self.cord)
        m0 = self.meas
        mm = m0
        for x in cs:
            self.meas = m0
            x.out(self.inner(x, len(q), c, e, 3, depth - 1, want))
            mm = max(mm, self.meas)
        self.meas = mm
        e.addall(cs[0].outs)
        return True

    def s_loop(self, d, e, depth):
        """at most 2 iterations: counter in the loop variable"""
        if self.loops >= 1:
            return False
        self.loops += 1
        q, c = self.pick(d, e)
        m0 = self.meas
        i = d.int(6, 0)
        body = d.loop([i], q, [], ordered=self.cord)
        qs = self.inner_loop(body, len(q), e, depth)
        one = body.int(6, 1)
        i2 = body.op("arithmetic.int.iadd", [body.ins[0], one], [nat(6)])[0]
        two = body.int(6, self.r.choice([1, 2]))
        lt = body.op("arithmetic.int.ilt_u", [i2, two], [nat(6)])[0]
        stop, go = body.cond(lt, [i2], [body.sum])
        stop.out([stop.tag(1, [], body.sum)])
        go.out([go.tag(0, [go.ins[0]], body.sum)])
        body.out([stop.outs[0]] + qs)
        e.addall(body.outs)
        self.meas = m0 + 2 * (self.meas - m0)
        return True

    def inner_loop(self, body, nq, e, depth):
        ee = Env()
        ee.addall(body.ins[1:])
        for _ in range(self.r.randint(1, 3)):
            self.stmt(body, ee, depth - 1)
        q = ee.of(QB)
        while len(q) > nq:
            body.op("tket.quantum.QFree", [q.pop()], ordered=self.ord)
        while len(q) < nq:
            q += body.op("tket.quantum.QAlloc", ordered=self.ord)
        return list(q)

    def s_cfg(self, d, e, depth):
        """entry -> (A | B) -> join/exit"""
        b = self.bool(d, e)
        q, c = self.pick(d, e)
        nq = len(q)
        qt = [QB] * nq
        cfg = d.cfg([b] + q + c, qt, ordered=self.cord)
        ct = [w.ty for w in c]
        k = self.r.randint(0, 2)
        m0 = self.meas
        if k == 0:
            # straight line of two blocks
            b1 = cfg.block([BOOL] + qt + ct, [[]], qt + ct)
            qs = self.blockbody(b1, nq, depth)
            b1.out([b1.tag(0, [], b1.sum)] + qs + b1.ins[1 + nq:])
            b2 = cfg.block(qt + ct, [[]], qt)
            qs = self.blockbody(b2, nq, depth, 0)
            b2.out([b2.tag(0, [], b2.sum)] + qs)
            cfg.branch(b1, 0, b2)
            cfg.branch(b2, 0, cfg.exit)
        else:
            b1 = cfg.block([BOOL] + qt + ct, [[], []], qt + ct)
            qs = self.blockbody(b1, nq, depth)
            b1.out([b1.ins[0]] + qs + b1.ins[1 + nq:])
            m1 = self.meas
            mm = m1
            bs = []
            for _ in range(2):
                self.meas = m1
                bb = cfg.block(qt + ct, [[]], qt)
                qs = self.blockbody(bb, nq, depth, 0)
                bb.out([bb.tag(0, [], bb.sum)] + qs)
                bs.append(bb)
                mm = max(mm, self.meas)
            self.meas = mm
            cfg.branch(b1, 0, bs[0])
            cfg.branch(b1, 1, bs[1])
            if k == 2:
                j = cfg.block(qt, [[]], qt)
                qs = self.blockbody(j, nq, depth, 0)
                j.out([j.tag(0, [], j.sum)] + qs)
                cfg.branch(bs[0], 0, j)
                cfg.branch(bs[1], 0, j)
                cfg.branch(j, 0, cfg.exit)
            else:
                cfg.branch(bs[0], 0, cfg.exit)
                cfg.branch(bs[1], 0, cfg.exit)
        e.addall(cfg.outs)
        return True

    def blockbody(self, b, nq, depth, skip=1):
        ee = Env()
        ee.addall(b.ins)
        for _ in range(self.r.randint(1, 3)):
            self.stmt(b, ee, depth - 1)
        q = ee.of(QB)
        while len(q) > nq:
            b.op("tket.quantum.QFree", [q.pop()], ordered=self.ord)
        while len(q) < nq:
            q += b.op("tket.quantum.QAlloc", ordered=self.ord)
        return list(q)

    def mkfunc(self, depth):
        self.nf += 1
        nq = self.r.randint(1, 2)
        cs = [self.r.choice([BOOL, ROT] + ([TBOOL] if self.f.get("tbool") else [])) for _ in range(self.r.randint(0, 2))]
        want = self.wants()
        f = self.m.func(f"fn{self.nf}", [QB] * nq + cs, [QB] * nq + want)
        m0 = self.meas
        f.out(self.inner(f, nq, cs, None, 3, depth - 1, want))
        f.mcost = self.meas - m0
        self.meas = m0
        self.funcs.append(f)
        return f

    def s_call(self, d, e, depth, ind=False):
        fs = [f for f in self.funcs if f.fins.count(QB) <= len(e.of(QB)) and self.meas + f.mcost <= self.maxmeas]
        if not fs or (len(self.funcs) < 2 and self.r.random() < 0.5):
            if self.nf > 3:
                return False
            f = self.mkfunc(depth)
            fs = [f] if f.fins.count(QB) <= len(e.of(QB)) and self.meas + f.mcost <= self.maxmeas else []
            if not fs:
                return False
        f = self.r.choice(fs)
        self.meas += f.mcost
        q = self.qs(e, f.fins.count(QB))
        ins = q + [self.val(d, e, t) for t in f.fins[len(q):]]
        if ind:
            e.addall(d.calli(d.loadfn(f), ins, ordered=self.cord))
        else:
            e.addall(d.call(f, ins, ordered=self.cord))
        return True

    def s_calli(self, d, e, depth):
        return self.s_call(d, e, depth, True)

    def s_panic(self, d, e, depth):
        b = self.bool(d, e)
        a, c = d.cond(b, [], [], ordered=True)
        a.panic(self.r.choice([1, 5, 1001]), "boom", [], [], ordered=True)
        a.out([])
        c.out([])
        return True

    def s_arr(self, d, e, depth, kind=None):
        """qubits through an array"""
        kind = kind or self.r.choice(self.f.get("arrkinds", ["array"]))
        n = self.r.randint(1, 2)
        q = self.qs(e, n)
        if not q:
            return False
        T = {"array": ARR, "borrow_arr": BARR}[kind](n, QB)
        ex = {"array": "collections.array", "borrow_arr": "collections.borrow_arr"}[kind]
        a = d.op(ex + ".new_array", q, [nat(n), tyarg(QB)], [T])[0]
        if n == 2 and self.r.random() < 0.5 and kind == "array":
            i, j = d.usize(0), d.usize(1)
            s = d.op(ex + ".swap", [a, i, j], [nat(n), tyarg(QB)], [SUM([T], [T])], ordered=self.ord)[0]
            x, y = d.cond(s, [], [T], ordered=self.cord)
            x.out(x.ins)
            y.out(y.ins)
            a = x.outs[0]
        if kind == "borrow_arr":
            for _ in range(self.r.randint(1, 2)):
                i = d.usize(self.r.randrange(n))
                a, qq = d.op(ex + ".borrow", [a, i], [nat(n), tyarg(QB)], [T, QB], ordered=self.ord)
                qq = d.op("tket.quantum." + self.r.choice(G1), [qq], ordered=self.ord)[0]
                i2 = i if self.r.random() < 0.5 else d.usize(self.m.nodes[self.m.nodes and i.n - 1]["v"]["value"]["v"])
                a = d.op(ex + ".return", [a, i2, qq], [nat(n), tyarg(QB)], [T], ordered=self.ord)[0]
        e.addall(d.op(ex + ".unpack", [a], [nat(n), tyarg(QB)], [QB] * n, ordered=self.ord))
        return True

    # ------------------------------------------------------------ programs
    def program(self, nq=2, copy=(ROT, BOOL), size=8, depth=2, outs=True, externs=False, module_only=False):
        self.m = Module()
        if externs:
            self.ext = [self.m.decl("ext_b", [BOOL], [BOOL]), self.m.decl("ext_f", [F64], [F64]), self.m.decl("ext_i", [I6], [I6])]
        ins = [QB] * nq + list(copy)
        f = self.m.main(ins, None)
        e = Env()
        e.addall(f.ins)
        for _ in range(size):
            self.stmt(f, e, depth)
        o = list(e.of(QB))
        if outs:
            for t in (BOOL, TBOOL, I6):
                ws = e.of(t)
                if ws:
                    o.append(ws[-1])
                    if len(ws) > 1 and outs is True:
                        o.append(ws[-2])
        if self.f.get("nodead"):
            used = {tuple(x[0]) for x in self.m.edges} | {(w.n, w.p) for w in o}
            o += [w for k, ws in e.w.items() for w in ws if w.ty != QB and w.n != f.ins[0].n and (w.n, w.p) not in used]
        if self.f.get("closed"):
            for w in o:
                if w.ty == QB:
                    f.op("tket.quantum.QFree", [w], ordered=True)
                elif w.ty == BOOL:
                    f.op("tket.result.result_bool", [w], [strarg("end")], [], ordered=True)
            o = []
        f.out(o)
        self.m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
        return self.m.json()
