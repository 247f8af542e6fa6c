"""Random programs over the operations of the target's runtime: random numbers, shots, lazy and leakage-detecting
measurements, state reports, results of every kind and width, integer arithmetic, errors."""
from .hg import *
from .gen import Gen

RNG = opq("tket.qsystem.random", "context", [], "A")
FB = FUT(BOOL)
FI = FUT(INT(6))
I6 = INT(6)
LONG = ["x" * 60, "t" * 130, "naïve-Ω≤", "tag with spaces", "q" * 200, "é" * 60, "0", "a" * 110, "a" * 117]
RT = dict(g1=1, rot=1, g2=1, meas=.5, measfree=.7, alloc=.5, free=.3, tryalloc=.3, bool=1, int=.5, nat=2, fut=2, leak=1, rng=1.5, shot=.7, state=1, narrow=2, resarr=2,
          intx=2, conv=1, rotq=1, res=1.5, errv=.5, rbar=.5, sarr=.7, cond=.7, dfg=.5, loop=.4, cfg=.4, call=.4, panic=.3, extern=.4, noeq=1, float=.5)


class QGen(Gen):
    def text(self):
        self.tagn += 1
        if self.r.random() < .5:
            return f"r{self.tagn}"
        return self.r.choice(LONG)

    def iw(self, d, e, w):
        ws = e.of(INT(w))
        if ws and self.r.random() < .85:
            return self.r.choice(ws)
        x = d.int(w, self.r.choice([0, 1, 2, 3, 5, 2 ** (2 ** w - 1), 2 ** (2 ** w) - 1]) % 2 ** (2 ** w))
        e.add(x)
        return x

    def s_nat(self, d, e, depth):
        if not e.of(QB):
            return False
        k = self.r.choice(["Rz", "PhasedX", "ZZPhase"])
        q = self.qs(e, 2 if k == "ZZPhase" else 1)
        if not q:
            return False
        a = [self.fl(d, e) for _ in range(2 if k == "PhasedX" else 1)]
        e.addall(d.op("tket.qsystem." + k, q + a, ordered=self.ord))
        return True

    def s_fut(self, d, e, depth):
        """lazy measurement, copies of the future, reads in some order"""
        if len(e.of(QB)) < 2 or not self.canmeas():
            return False
        k = self.r.choice(["LazyMeasure", "LazyMeasureReset", "Measure", "MeasureReset"])
        o = d.op("tket.qsystem." + k, self.qs(e, 1), ordered=self.ord)
        for w in o:
            if w.ty != FB:
                e.add(w)
                continue
            self.spend(d, e, w, BOOL)
        return True

    def spend(self, d, e, w, t):
        fs = [w]
        while self.r.random() < .4 and len(fs) < 3:
            f = fs.pop(self.r.randrange(len(fs)))
            fs += d.op("tket.futures.Dup", [f], [tyarg(t)], [FUT(t)] * 2)
        self.r.shuffle(fs)
        for f in fs:
            if self.r.random() < .25:
                d.op("tket.futures.Free", [f], [tyarg(t)], [])
            else:
                e.addall(d.op("tket.futures.Read", [f], [tyarg(t)], [t]))

    def s_leak(self, d, e, depth):
        if len(e.of(QB)) < 2 or not self.canmeas():
            return False
        self.spend(d, e, d.op("tket.qsystem.LazyMeasureLeaked", self.qs(e, 1), ordered=self.ord)[0], INT(6))
        return True

    def s_rng(self, d, e, depth):
        if depth < self.top or getattr(self, "rngs", 0):
            return False  # one generator per program
        self.rngs = 1
        s = d.op("tket.qsystem.random.NewRNGContext", [self.iw(d, e, 6)], ordered=self.ord)[0]
        a, b = d.cond(s, [], [RNG], ordered=self.cord)
        r = a.panic(5, "no generator", [], [RNG], ordered=self.ord)
        a.out(r)
        b.out(b.ins)
        c = a.outs[0]
        for _ in range(self.r.randint(0, 4)):
            k = self.r.choice(["RandomInt", "RandomFloat", "RandomIntBounded", "RandomAdvance"])
            o = d.op("tket.qsystem.random." + k, [c] + ([self.iw(d, e, 5)] if k == "RandomIntBounded" else [self.iw(d, e, 6)] if k == "RandomAdvance" else []),
                     ordered=self.ord)
            c = o[-1]
            e.addall(o[:-1])
        d.op("tket.qsystem.random.DeleteRNGContext", [c], ordered=self.ord)
        return True

    def s_shot(self, d, e, depth):
        e.addall(d.op("tket.qsystem.utils.GetCurrentShot", [], ordered=self.ord))
        return True

    def s_state(self, d, e, depth):
        q = self.qs(e, self.r.randint(1, 3))
        if not q:
            return False
        n = len(q)
        t = ARR(n, QB)
        w = d.op("collections.array.new_array", q, [nat(n), tyarg(QB)], [t])[0]
        w = d.op("tket.debug.StateResult", [w], [strarg(self.text()), nat(n)], [t], ordered=True)[0]
        e.addall(d.op("collections.array.unpack", [w], [nat(n), tyarg(QB)], [QB] * n))
        return True

    def s_rbar(self, d, e, depth):
        q = self.qs(e, self.r.randint(1, 3))
        if not q:
            return False
        n = len(q)
        t = ARR(n, QB)
        w = d.op("collections.array.new_array", q, [nat(n), tyarg(QB)], [t])[0]
        w = d.op("tket.qsystem.RuntimeBarrier", [w], [nat(n)], [t], ordered=True)[0]
        e.addall(d.op("collections.array.unpack", [w], [nat(n), tyarg(QB)], [QB] * n))
        return True

    def s_narrow(self, d, e, depth):
        w = self.r.choice([3, 4, 5, 6])
        d.op("tket.result.result_" + self.r.choice(["int", "uint"]), [self.iw(d, e, w)], [strarg(self.text()), nat(w)], [], ordered=True)
        return True

    def s_res(self, d, e, depth):
        k = self.r.choice(["bool", "f64"])
        d.op("tket.result.result_" + k, [self.bool(d, e) if k == "bool" else self.fl(d, e)], [strarg(self.text())], [], ordered=True)
        return True

    def s_resarr(self, d, e, depth):
        k = self.r.choice(["bool", "f64", "int", "uint"])
        n = self.r.choice([0, 1, 2, 2, 3, 5])
        w = self.r.choice([3, 4, 5, 6])
        t = {"bool": BOOL, "f64": F64}.get(k, INT(w))
        v = [self.bool(d, e) if k == "bool" else self.fl(d, e) if k == "f64" else self.iw(d, e, w) for _ in range(n)]
        a = d.op("collections.array.new_array", v, [nat(n), tyarg(t)], [ARR(n, t)])[0]
        d.op("tket.result.result_array_" + k, [a], [strarg(self.text()), nat(n)] + ([nat(w)] if "int" in k else []), [], ordered=True)
        return True

    def s_intx(self, d, e, depth):
        w = self.r.choice([3, 4, 5, 6])
        x = lambda: self.iw(d, e, w)
        k = self.r.choice(["iadd", "isub", "imul", "ineg", "iand", "ior", "ixor", "inot", "ieq", "ine", "ilt_s", "ile_u", "igt_s", "ige_u", "iwiden_u", "iwiden_s",
                           "idivmod_u", "imod_u", "idiv_u", "idiv_checked_u", "imod_checked_u", "ilt_u", "igt_u", "is_to_u", "iu_to_s", "inarrow_u", "inarrow_s"] + (["iabs", "imax_u", "imin_s"] if w == 6 else []))
        if k.startswith("iwiden"):
            w2 = self.r.randint(w, 6)
            e.addall(d.op("arithmetic.int." + k, [x()], [nat(w), nat(w2)], [INT(w2)]))
            return True
        n = 1 if k in ("ineg", "inot", "iabs", "is_to_u", "iu_to_s") else 2
        if "checked" in k or "narrow" in k:
            w2 = self.r.randint(3, w) if "narrow" in k else w
            if w2 == w:
                s = d.op("arithmetic.int." + k, [x(), d.int(w, self.r.choice([1, 2, 3, 7]))], [nat(w)])[0] if "checked" in k else None
            else:
                s = d.op("arithmetic.int." + k, [x()], [nat(w), nat(w2)])[0]
            if s is None:
                return False
            a, b = d.cond(s, [], [INT(w2)], ordered=self.cord)
            a.out([a.int(w2, 77)])
            b.out(b.ins)
            e.addall(a.outs)
            return True
        if "div" in k or "mod" in k:
            # by a known non-zero number
            o = d.op("arithmetic.int." + k, [x(), d.int(w, self.r.choice([1, 2, 3, 7]))], [nat(w)], ordered=False)
        else:
            o = d.op("arithmetic.int." + k, [x() for _ in range(n)], [nat(w)], ordered=self.ord and "_to_" in k)
        e.addall(o)
        return True

    def s_conv(self, d, e, depth):
        k = self.r.choice(["ifrombool", "itobool", "convert_u", "convert_s", "itousize"])
        if k == "ifrombool":
            b = d.op("arithmetic.conversions.ifrombool", [self.bool(d, e)])[0]
            e.addall(d.op("arithmetic.int.iwiden_u", [b], [nat(0), nat(self.r.choice([3, 6]))]))
        elif k == "itobool":
            b = d.op("arithmetic.conversions.ifrombool", [self.bool(d, e)])[0]
            e.addall(d.op("arithmetic.conversions.itobool", [b]))
        elif k == "itousize":
            u = d.op("arithmetic.conversions.itousize", [self.iw(d, e, 6)])[0]
            e.addall(d.op("arithmetic.conversions.ifromusize", [u]))
        else:
            w = self.r.choice([3, 5, 6])
            e.addall(d.op("arithmetic.conversions." + k, [d.int(w, self.r.choice([0, 1, 3, 100, 200]))], [nat(w)]))
        return True

    def s_rotq(self, d, e, depth):
        """checked conversion of a number to an angle"""
        s = d.op("tket.rotation.from_halfturns", [self.fl(d, e)])[0]
        a, b = d.cond(s, [], [ROT], ordered=self.cord)
        r = a.panic(9, "not an angle", [], [ROT], ordered=self.ord)
        a.out(r)
        b.out(b.ins)
        r = a.outs[0]
        if self.r.random() < .5:
            r = d.op("tket.rotation.radd", [r, self.rot(d, e)])[0]
        e.add(r)
        if self.r.random() < .5:
            e.addall(d.op("tket.rotation.to_halfturns", [r]))
        return True

    def s_errv(self, d, e, depth):
        """conditional panic or exit with a text of its own"""
        a, b = d.cond(self.bool(d, e), [], [BOOL], ordered=self.cord)
        v = self.r.random() < .5
        x, y = (a, b) if v else (b, a)
        op = self.r.choice(["panic", "exit"])
        o = x.panic(self.r.choice([1, 3, 9, 1000, 12, 70000 if op == "panic" else 500]), self.text(), [], [BOOL], ordered=self.ord, op=op)
        x.out(o)
        y.out([y.bool(True)])
        e.addall(a.outs)
        return True

    def s_sarr(self, d, e, depth):
        """lookup in a constant table"""
        t = self.r.choice([I6, F64, BOOL])
        n = self.r.randint(1, 4)
        vs = [c_int(6, self.r.randrange(20)) if t == I6 else c_f64(self.r.choice(self.consts)) if t == F64 else c_bool(self.r.random() < .5) for _ in range(n)]
        tab = d.load(c_sarr(vs, t, f"table{self.tagn}"))
        i = d.op("arithmetic.conversions.itousize", [self.iw(d, e, 6)])[0] if self.r.random() < .4 else d.usize(self.r.randint(0, n))
        s = d.op("collections.static_array.get", [tab, i], [tyarg(t)], [OPT(t)])[0]
        a, b = d.cond(s, [], [t], ordered=self.cord)
        a.out([{id(I6): lambda: a.int(6, 50), id(F64): lambda: a.f64(0.5), id(BOOL): lambda: a.bool(False)}[id(t)]()])
        b.out(b.ins)
        e.addall(a.outs)
        if self.r.random() < .3:
            e.addall(d.op("collections.static_array.len", [tab], [tyarg(t)], [USIZE]))
        return True

    def program(self, **k):
        self.top = k.get("depth", 2)
        return super().program(**k)
