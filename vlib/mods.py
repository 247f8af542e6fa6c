"""Programs that use modifiers: LoadFunction -> (control | dagger)* -> CallIndirect."""
import random
from .hg import *
from .gen import G1, G2

I6 = INT(6)
CONSTS = (0.25, 0.5, -1.5, 0.125, 1.0, 0.75)
CLS = [ROT, BOOL]


def flat(ty):
    """(kind, size) of an in/out parameter"""
    if ty == QB:
        return None
    return ("borrow_arr" if ty["id"] == "borrow_array" else "array"), ty["args"][0]["n"]


def width(qsig):
    return sum(1 if t == QB else flat(t)[1] for t in qsig)


class ModGen:
    """feats: weights of statements g1 rot g2 crz ccx gph dfg cond cfg loop call calli mod arr conv fcls"""

    def __init__(self, seed, feats, maxrot=4):
        self.r = random.Random(f"mods/{seed}")
        self.f = feats
        self.m = Module()
        self.nf = 0
        self.nrot = 0
        self.maxrot = maxrot
        self.loops = 0
        self.flag = 7
        self.pool = []

    def angle(self, d, e):
        self.nrot += 1
        if e[0] and self.nrot <= self.maxrot and self.r.random() < .7:
            w = self.r.choice(e[0])
            if self.r.random() < .2:
                w = d.op("tket.rotation.radd", [w, self.r.choice(e[0])])[0]
            return w
        return d.rot(self.r.choice(CONSTS))

    def bit(self, d, e):
        if e[1] and self.r.random() < .8:
            w = self.r.choice(e[1])
            if self.r.random() < .3:
                w = d.op("logic.Not", [w])[0]
            return w
        return d.bool(self.r.random() < .5)

    # e = ([rot wires], [bool wires]); qs: list of qubit wires, positions kept
    def stmt(self, d, qs, e, depth):
        r = self.r
        names = list(self.f)
        for _ in range(20):
            k = r.choices(names, [self.f[n] for n in names])[0]
            if depth <= 0 and k in ("dfg", "cond", "cfg", "loop", "call", "calli", "mod"):
                continue
            if getattr(self, "s_" + k)(d, qs, e, depth):
                return

    def apply(self, d, qs, pl, name, extra=()):
        for i, w in zip(pl, d.op("tket.quantum." + name, [qs[i] for i in pl] + list(extra))):
            qs[i] = w
        return True

    def pl(self, qs, n):
        return self.r.sample(range(len(qs)), n) if len(qs) >= n else None

    def s_g1(self, d, qs, e, depth):
        return self.apply(d, qs, self.pl(qs, 1), self.r.choice(G1))

    def s_rot(self, d, qs, e, depth):
        return self.apply(d, qs, self.pl(qs, 1), self.r.choice(["Rx", "Ry", "Rz"]), [self.angle(d, e)])

    def s_g2(self, d, qs, e, depth):
        p = self.pl(qs, 2)
        return p and self.apply(d, qs, p, self.r.choice(G2))

    def s_crz(self, d, qs, e, depth):
        p = self.pl(qs, 2)
        return p and self.apply(d, qs, p, "CRz", [self.angle(d, e)])

    def s_ccx(self, d, qs, e, depth):
        p = self.pl(qs, 3)
        return p and self.apply(d, qs, p, "Toffoli")

    def s_gph(self, d, qs, e, depth):
        d.op("tket.global_phase.global_phase", [self.angle(d, e)])
        return True

    def sub(self, qs):
        k = self.r.randint(1, min(len(qs), 2))
        return self.pl(qs, k)

    def body(self, d, qs, e, depth, size=2):
        qs = list(qs)
        for _ in range(self.r.randint(1, size)):
            self.stmt(d, qs, e, depth - 1)
        return qs

    def env_of(self, ws):
        return ([w for w in ws if w.ty == ROT], [w for w in ws if w.ty == BOOL])

    def some(self, e):
        c = [w for w in e[0] + e[1] if self.r.random() < .6]
        self.r.shuffle(c)
        return c

    def mixed(self, qs, c):
        """interleave qubits and classical values; returns (wires, positions of qubits)"""
        ws = [("q", w) for w in qs]
        for w in c:
            ws.insert(self.r.randint(0, len(ws)), ("c", w))
        return [w for _, w in ws], [i for i, (k, _) in enumerate(ws) if k == "q"]

    def s_dfg(self, d, qs, e, depth):
        p = self.sub(qs)
        c = self.some(e)
        ws, qp = self.mixed([qs[i] for i in p], c)
        x = d.dfg(ws, [QB] * len(p))
        x.out(self.body(x, [x.ins[i] for i in qp], self.env_of(x.ins), depth))
        for i, w in zip(p, x.outs):
            qs[i] = w
        return True

    def s_cond(self, d, qs, e, depth):
        p = self.sub(qs)
        c = self.some(e)
        if self.r.random() < .3 and e[0] and "nosum" not in self.f:
            t = SUM([], [ROT])
            b0 = self.bit(d, e)
            cs = d.cond(b0, [self.r.choice(e[0])], [t])
            cs[0].out([cs[0].tag(0, [], t)])
            cs[1].out([cs[1].tag(1, [cs[1].ins[0]], t)])
            b = cs[0].outs[0]
        else:
            b = self.bit(d, e)
        ws, qp = self.mixed([qs[i] for i in p], c)
        cs = d.cond(b, ws, [QB] * len(p))
        rows = rows_of(b.ty)
        for x, row in zip(cs, rows):
            x.out(self.body(x, [x.ins[len(row) + i] for i in qp], self.env_of(x.ins), depth) if self.r.random() < .9 else [x.ins[len(row) + i] for i in qp])
        for i, w in zip(p, cs[0].outs):
            qs[i] = w
        return True

    def s_cfg(self, d, qs, e, depth):
        p = self.sub(qs)
        c = self.some(e)
        ws, qp = self.mixed([qs[i] for i in p], c)
        x = d.cfg(ws, [QB] * len(p))
        b = x.block([w.ty for w in ws], [[]], [QB] * len(p))
        o = self.body(b, [b.ins[i] for i in qp], self.env_of(b.ins), depth)
        b.out([b.tag(0, [], SUM([]))] + o)
        x.branch(b, 0, x.exit)
        for i, w in zip(p, x.outs):
            qs[i] = w
        return True

    def s_loop(self, d, qs, e, depth):
        if self.loops:
            return False
        self.loops += 1
        p = self.sub(qs)
        i = d.int(6, 0)
        body = d.loop([i], [qs[k] for k in p], [I6] if self.r.random() < .4 else [])
        jo = len(body.outs) - len(p)
        o = self.body(body, body.ins[1:], ([], []), depth)
        i2 = body.op("arithmetic.int.iadd", [body.ins[0], body.int(6, 1)], [nat(6)])[0]
        lt = body.op("arithmetic.int.ilt_u", [i2, body.int(6, self.r.choice([1, 2, 3]))], [nat(6)])[0]
        stop, go = body.cond(lt, [i2], [body.sum])
        stop.out([stop.tag(1, [stop.ins[0]] if jo else [], body.sum)])
        go.out([go.tag(0, [go.ins[0]], body.sum)])
        body.out([stop.outs[0]] + o)
        for k, w in zip(p, body.outs[jo:]):
            qs[k] = w
        return True

    def s_carr(self, d, qs, e, depth):
        """an array of angles"""
        k = self.r.choice(["array", "borrow_arr"])
        n = self.r.randint(1, 3)
        ws = [self.angle(d, ([], [])) if not e[0] or self.r.random() < .3 else self.r.choice(e[0]) for _ in range(n)]
        t = (ARR if k == "array" else BARR)(n, ROT)
        a = d.op(f"collections.{k}.new_array", ws, [nat(n), tyarg(ROT)], [t])[0]
        if self.r.random() < .4:
            k2 = "borrow_arr" if k == "array" else "array"
            t2 = (ARR if k2 == "array" else BARR)(n, ROT)
            a = d.op("collections.borrow_arr." + ("from_array" if k2 == "borrow_arr" else "to_array"), [a], [nat(n), tyarg(ROT)], [t2])[0]
            k = k2
        e[0].extend(d.op(f"collections.{k}.unpack", [a], [nat(n), tyarg(ROT)], [ROT] * n))
        return True

    def s_creg(self, d, qs, e, depth):
        """a region without qubits: computes an angle, may contain a global phase"""
        if not e[0]:
            return False
        ws = [self.r.choice(e[0])] + self.some(e)
        k = self.r.choice(["dfg", "cond", "cfg"])

        def body(x, ins):
            en = self.env_of(ins)
            if self.r.random() < .6 and self.f.get("gph"):
                self.s_gph(x, [], en, 0)
            return self.angle(x, en)

        if k == "dfg":
            x = d.dfg(ws, [ROT])
            x.out([body(x, x.ins)])
            o = x.outs
        elif k == "cfg":
            x = d.cfg(ws, [ROT])
            row = [ROT] if self.f.get("row") else []
            b = x.block([w.ty for w in ws], [row], [] if row else [ROT])
            v = body(b, b.ins)
            b.out([b.tag(0, [v] if row else [], SUM(row))] + ([] if row else [v]))
            x.branch(b, 0, x.exit)
            o = x.outs
        else:
            cs = d.cond(self.bit(d, e), ws, [ROT])
            for x in cs:
                x.out([body(x, x.ins)])
            o = cs[0].outs
        e[0].append(o[0])
        return True

    def s_fcls(self, d, qs, e, depth):
        """a classical helper function"""
        if not e[0]:
            return False
        flags, self.flag = self.flag, self.r.choice([None, None, 7])
        a, b = self.r.choice(e[0]), self.bit(d, e)
        kind = self.r.choice(["same", "diff"])
        n = self.name("cls")
        if kind == "same":
            f = self.m.func(n, [ROT], [ROT])
            f.out([f.op("tket.rotation.radd", [f.ins[0], f.rot(.25)])[0]])
            o = d.call(f, [a])
        else:
            f = self.m.func(n, [BOOL, ROT], [ROT])
            cs = f.cond(f.ins[0], [f.ins[1]], [ROT])
            cs[0].out([cs[0].ins[0]])
            cs[1].out([cs[1].op("tket.rotation.radd", [cs[1].ins[0], cs[1].rot(.5)])[0]])
            f.out(cs[0].outs)
            o = d.call(f, [b, a])
        if self.flag is not None:
            self.m.meta[f.n] = {"unitary": self.flag}
        self.flag = flags
        e[0].append(o[0])
        return True

    def name(self, s):
        self.nf += 1
        return f"{s}{self.nf}"

    # ---------------------------------------------------------- functions
    def fn(self, qsig, cls, depth, size, order=False, perm=False):
        """a function over in/out parameters qsig and classical inputs; the body is built now"""
        ins = list(qsig) + list(cls)
        if order:  # called functions may take their arguments in any order
            pos = list(range(len(ins)))
            cp = pos[len(qsig):]
            pos = pos[:len(qsig)]
            for x in cp:
                pos.insert(self.r.randint(0, len(pos)), x)
        else:
            pos = list(range(len(ins)))
        f = self.m.func(self.name("f"), [ins[i] for i in pos], list(qsig))
        if self.flag is not None:
            self.m.meta[f.n] = {"unitary": self.flag}
        f.pos = pos
        w = {p: f.ins[k] for k, p in enumerate(pos)}
        qs = []
        for i, t in enumerate(qsig):
            if t == QB:
                qs.append(w[i])
            else:
                k, n = flat(t)
                qs += f.op(f"collections.{k}.unpack", [w[i]], [nat(n), tyarg(QB)], [QB] * n)
        e = self.env_of([w[len(qsig) + i] for i in range(len(cls))])
        for _ in range(size):
            self.stmt(f, qs, e, depth)
        if perm:
            self.r.shuffle(qs)
        outs = []
        for t in qsig:
            if t == QB:
                outs.append(qs.pop(0))
            else:
                k, n = flat(t)
                outs.append(f.op(f"collections.{k}.new_array", qs[:n], [nat(n), tyarg(QB)], [t])[0])
                qs = qs[n:]
        f.out(outs)
        f.qsig, f.cls = list(qsig), list(cls)
        return f

    def callee(self, n, e, depth, order):
        cls = [w.ty for w in self.some(e)]
        if self.pool and self.r.random() < .3:
            c = [f for f in self.pool if f.qsig == [QB] * n and f.order == order and all(e[CLS.index(t)] for t in f.cls)]
            if c:
                return self.r.choice(c)
        f = self.fn([QB] * n, cls, depth - 1, self.r.randint(1, 2), order)
        f.order = order
        self.pool.append(f)
        return f

    def cargs(self, f, e):
        return [self.r.choice(e[CLS.index(t)]) for t in f.cls]

    def s_call(self, d, qs, e, depth, ind=False):
        p = self.sub(qs)
        f = self.callee(len(p), e, depth, not ind or self.r.random() < .5)
        all_ = [qs[i] for i in p] + self.cargs(f, e)
        args = [all_[i] for i in f.pos]
        o = d.calli(d.loadfn(f), args) if ind else d.call(f, args)
        for i, w in zip(p, o):
            qs[i] = w
        return True

    def s_calli(self, d, qs, e, depth):
        return self.s_call(d, qs, e, depth, True)

    def s_mod(self, d, qs, e, depth):
        """a modifier inside a modified function"""
        if len(qs) < 2:
            return False
        p = self.pl(qs, min(len(qs), self.r.choice([2, 2, 3])))
        kinds = self.r.choice([["c"], ["c"], ["d"], ["c", "d"], ["d", "c"]])
        nc = 1 if "c" in kinds else 0
        f = self.callee(len(p) - nc, e, depth, False)
        o = self.modcall(d, f, [("c", 1) if k == "c" else ("d",) for k in kinds], [[qs[p[0]]]] if nc else [], [qs[i] for i in p[nc:]], self.cargs(f, e))
        for i, w in zip(p, o):
            qs[i] = w
        return True

    def s_arr(self, d, qs, e, depth):
        p = self.pl(qs, self.r.randint(1, min(3, len(qs))))
        n = len(p)
        k = self.r.choice(["array", "borrow_arr"])
        t = (ARR if k == "array" else BARR)(n, QB)
        a = d.op(f"collections.{k}.new_array", [qs[i] for i in p], [nat(n), tyarg(QB)], [t])[0]
        if self.f.get("conv") and self.r.random() < .5:
            k2 = "borrow_arr" if k == "array" else "array"
            t2 = (ARR if k2 == "array" else BARR)(n, QB)
            a = d.op("collections.borrow_arr." + ("from_array" if k2 == "borrow_arr" else "to_array"), [a], [nat(n), tyarg(QB)], [t2])[0]
            k = k2
        for i, w in zip(p, d.op(f"collections.{k}.unpack", [a], [nat(n), tyarg(QB)], [QB] * n)):
            qs[i] = w
        return True

    s_conv = s_arr

    def s_noop(self, d, qs, e, depth):
        i = self.r.randrange(len(qs))
        qs[i] = d.op("prelude.Noop", [qs[i]], [tyarg(QB)], [QB])[0]
        if e[0] and self.r.random() < .5:
            k = self.r.randrange(len(e[0]))
            e[0][k] = d.op("prelude.Noop", [e[0][k]], [tyarg(ROT)], [ROT])[0]
        return True

    def s_bar(self, d, qs, e, depth):
        """a barrier over some qubits and classical values"""
        p = self.pl(qs, self.r.randint(1, len(qs)))
        ws, qp = self.mixed([qs[i] for i in p], self.some(e))
        ts = [w.ty for w in ws]
        o = d.op("prelude.Barrier", ws, [listarg(map(tyarg, ts))], ts)
        for i, k in zip(p, qp):
            qs[i] = o[k]
        return True

    def s_ctup(self, d, qs, e, depth):
        """a tuple of classical values"""
        ws = [self.r.choice(e[0] + e[1]) for _ in range(self.r.randint(1, 3))] if e[0] + e[1] else [self.angle(d, e)]
        for w in d.untup(d.tup(ws)):
            (e[0] if w.ty == ROT else e[1]).append(w)
        return True

    def s_qtup(self, d, qs, e, depth):
        """a tuple of qubits (and classical values)"""
        p = self.pl(qs, self.r.randint(1, len(qs)))
        ws, qp = self.mixed([qs[i] for i in p], self.some(e) if self.r.random() < .3 else [])
        o = d.untup(d.tup(ws))
        for i, k in zip(p, qp):
            qs[i] = o[k]
        return True

    def modcall(self, d, f, chain, ctrls, qargs, cargs):
        """apply the modifiers (innermost first) to f and call it; ctrls: one list of qubits per control modifier (outermost first).
        returns controls ++ in/out results"""
        w = d.loadfn(f)
        qsig, cls = list(f.qsig), list(f.cls)
        for k in chain:
            if k[0] == "c":
                args = [nat(k[1]), listarg(map(tyarg, qsig)), listarg(map(tyarg, cls))]
                qsig = [ARR(k[1], QB)] + qsig
                w = d.op("tket.modifier.ControlModifier", [w], args, [FN(qsig + cls, qsig)])[0]
            else:
                args = [listarg(map(tyarg, qsig)), listarg(map(tyarg, cls))]
                w = d.op("tket.modifier.DaggerModifier", [w], args, [FN(qsig + cls, qsig)])[0]
        arrs = [d.op("collections.array.new_array", c, [nat(len(c)), tyarg(QB)], [ARR(len(c), QB)])[0] for c in ctrls]
        o = d.calli(w, arrs + list(qargs) + list(cargs))
        out = []
        for c, a in zip(ctrls, o):
            out += d.op("collections.array.unpack", [a], [nat(len(c)), tyarg(QB)], [QB] * len(c))
        return out + o[len(ctrls):]

    def program(self, chain, qsig, cls, depth, size, fun=None, perm=False, twice=False, module=False):
        """main(controls.., targets.., classical..) calls the modified function"""
        sizes = [k[1] for k in chain if k[0] == "c"][::-1]
        f = fun(self) if fun else self.fn(qsig, cls, depth, size, perm=perm)
        qsig, cls = f.qsig, f.cls
        nc, nq = sum(sizes), width(qsig)
        m = self.m.main([QB] * (nc + nq) + list(cls), [QB] * (nc + nq))
        qs = list(m.ins[:nc + nq])
        for rep in range(2 if twice else 1):
            ch = chain
            cs, k = [], 0
            for s in sizes:
                cs.append(qs[k:k + s])
                k += s
            qargs = []
            for t in qsig:
                if t == QB:
                    qargs.append(qs[k])
                    k += 1
                else:
                    kd, n = flat(t)
                    qargs.append(m.op(f"collections.{kd}.new_array", qs[k:k + n], [nat(n), tyarg(QB)], [t])[0])
                    k += n
            o = self.modcall(m, f, ch, cs, qargs, m.ins[nc + nq:])
            out = list(o[:nc])
            for t, w in zip(qsig, o[nc:]):
                if t == QB:
                    out.append(w)
                else:
                    kd, n = flat(t)
                    out += m.op(f"collections.{kd}.unpack", [w], [nat(n), tyarg(QB)], [QB] * n)
            qs = out
        m.out(qs)
        if module:
            self.m.entry = 0
        return self.m.json()


def gate_fn(name, nq, rot, const=None):
    def mk(g):
        cls = [ROT] if rot and const is None else []
        f = g.m.func("gate", [QB] * nq + cls, [QB] * nq)
        g.m.meta[f.n] = {"unitary": 7}
        a = []
        if rot:
            a = [f.ins[nq] if const is None else f.rot(const)]
        if name == "global_phase":
            f.op("tket.global_phase.global_phase", a)
            f.out(f.ins[:nq])
        else:
            f.out(f.op("tket.quantum." + name, list(f.ins[:nq]) + a))
        f.qsig, f.cls = [QB] * nq, cls
        return f
    return mk
