"""Random programs which call a GPU library: contexts, functions looked up by name or number, calls, results; in conditionals, loops, blocks and functions."""
from .hg import *
from .qgen import QGen

G = "tket.gpu."
CTX = opq("tket.gpu", "context", [], "A")
MOD = opq("tket.gpu", "module")
I6 = INT(6)
NAMES = ["f", "g", "kernel_a", "kernel a", "is_set_function_id_f", "run_gpu_validation", "gpu_error_handler", "naïve", "decode", "F"]


def tys(l):
    return listarg([tyarg(t) for t in l])


def GF(ins, outs):
    return opq("tket.gpu", "func", [tys(ins), tys(outs)])


def GR(outs):
    return opq("tket.gpu", "result", [tys(outs)], "A")


def c_mod(f="m.so"):
    return ext_val(MOD, "ConstGpuModule", {"module_filename": f, "config_filename": None})


class GGen(QGen):
    def sigty(self):
        r = self.r
        return [r.choice([I6, F64, BOOL, USIZE] + ([TBOOL] if self.f.get("gtb") else [])) for _ in range(r.randint(0, 4))], r.choice([[], [I6], [F64], [USIZE], [I6]])

    def gval(self, d, e, t):
        if t == USIZE:
            return d.usize(self.r.randrange(9)) if self.r.random() < .5 else d.op("arithmetic.conversions.itousize", [self.iw(d, e, 6)])[0]
        return self.bool(d, e) if t == BOOL else self.fl(d, e) if t == F64 else self.iw(d, e, 6) if t == I6 else self.val(d, e, t)

    def context(self, d, e):
        s = d.op(G + "get_context", [self.gval(d, e, USIZE)], [], [OPT(CTX)], ordered=True)[0]
        a, b = d.cond(s, [], [CTX], ordered=True)
        a.out(a.panic(4, "no context", [], [CTX], ordered=True))
        b.out(b.ins)
        return a.outs[0]

    def lookup(self, d, e, ins, outs):
        m = d.load(c_mod(self.r.choice(["m.so", "n.so"])))
        if self.r.random() < .65:
            return d.op(G + "lookup_by_name", [m], [strarg(self.r.choice(NAMES)), tys(ins), tys(outs)], [GF(ins, outs)], ordered=True)[0]
        return d.op(G + "lookup_by_id", [m], [nat(self.r.choice([0, 1, 7, 2 ** 32, 2 ** 63])), tys(ins), tys(outs)], [GF(ins, outs)], ordered=True)[0]

    def invoke(self, d, e, c, f=None, sg=None):
        """context after a call and the reading of its result"""
        ins, outs = sg or self.sigty()
        if f is None:
            f = self.lookup(d, e, ins, outs)
            if self.r.random() < .2:  # one of two functions
                g = self.lookup(d, e, ins, outs)
                x, y = d.cond(self.bool(d, e), [f, g], [f.ty], ordered=True)
                x.out([x.ins[0]])
                y.out([y.ins[1]])
                f = x.outs[0]
        r = d.op(G + "call", [c, f] + [self.gval(d, e, t) for t in ins], [tys(ins), tys(outs)], [GR(outs)], ordered=True)[0]
        if self.r.random() < .2:  # the result is read in a branch
            x, y = d.cond(self.bool(d, e), [r], [CTX], ordered=True)
            for k in (x, y):
                o = k.op(G + "read_result", k.ins, [tys(outs)], [CTX] + outs, ordered=True)
                if k is x and o[1:]:
                    k.op("tket.result.result_" + ("f64" if outs == [F64] else "uint"), [o[1] if outs != [USIZE] else k.op("arithmetic.conversions.ifromusize", o[1:])[0]],
                         [strarg(self.text())] + ([] if outs == [F64] else [nat(6)]), [], ordered=True)
                k.out(o[:1])
            return x.outs[0]
        o = d.op(G + "read_result", [r], [tys(outs)], [CTX] + outs, ordered=True)
        if o[1:]:
            e.add(o[1] if outs != [USIZE] else d.op("arithmetic.conversions.ifromusize", o[1:])[0])
        return o[0]

    def steps(self, d, e, cs, depth, n):
        for _ in range(n):
            if cs and self.r.random() < .75:
                k = self.r.randrange(len(cs))
                cs[k] = self.gstep(d, e, cs[k], depth)
            else:
                self.stmt(d, e, min(depth, 1))

    def gstep(self, d, e, c, depth):
        k = self.r.choice(["call", "call", "call", "two", "renew"] + (["cond", "loop", "cfg", "fn", "fn"] if depth > 0 else []))
        if k == "call":
            return self.invoke(d, e, c)
        if k == "two":  # one lookup, two calls
            sg = self.sigty()
            f = self.lookup(d, e, *sg)
            return self.invoke(d, e, self.invoke(d, e, c, f, sg), f, sg)
        if k == "renew":
            d.op(G + "dispose_context", [c], [], [], ordered=True)
            return self.context(d, e)
        Env = type(e)
        if k == "cond":
            x, y = d.cond(self.bool(d, e), [c], [CTX], ordered=True)
            for z in (x, y):
                z.out([self.inside(z, Env(), z.ins[0], depth)])
            return x.outs[0]
        if k == "loop":
            i = d.int(6, 0)
            body = d.loop([i], [c], [], ordered=True)
            w = self.inside(body, Env(), body.ins[1], 0)
            i2 = body.op("arithmetic.int.iadd", [body.ins[0], body.int(6, 1)], [nat(6)])[0]
            lt = body.op("arithmetic.int.ilt_u", [i2, body.int(6, 2)], [nat(6)])[0]
            stop, go = body.cond(lt, [i2], [body.sum])
            stop.out([stop.tag(1, [], body.sum)])
            go.out([go.tag(0, [go.ins[0]], body.sum)])
            body.out([stop.outs[0], w])
            return body.outs[0]
        if k == "cfg":
            g = d.cfg([self.bool(d, e), c], [CTX], ordered=True)
            a = g.block([BOOL, CTX], [[], []], [CTX])
            a.out([a.ins[0], self.inside(a, Env(), a.ins[1], 0)])
            g.branch(a, 0, g.exit)
            b = g.block([CTX], [[]], [CTX])
            b.out([b.tag(0, [], b.sum), self.inside(b, Env(), b.ins[0], 0)])
            g.branch(a, 1, b)
            g.branch(b, 0, g.exit)
            return g.outs[0]
        self.gfs = getattr(self, "gfs", [])
        if len(self.gfs) < 2:
            f = self.m.func(f"{self.r.choice(NAMES)}_{len(self.gfs)}" if self.r.random() < .5 else ["run_gpu_validation", "validate_gpu_response"][len(self.gfs)], [CTX, F64], [CTX, F64])
            ee = Env()
            ee.add(f.ins[1])
            w = self.inside(f, ee, f.ins[0], depth - 1)
            f.out([w, ee.of(F64)[-1]])
            self.gfs.append(f)
        o = d.call(self.r.choice(self.gfs), [c, self.fl(d, e)], ordered=True)
        e.add(o[1])
        return o[0]

    def inside(self, d, e, c, depth):
        n = self.meas
        for _ in range(self.r.randint(0, 2)):
            c = self.gstep(d, e, c, depth - 1)
        return c

    def gpu(self, nq=1, size=5, depth=1):
        self.m = Module()
        self.top = depth
        self.ext = [self.m.decl("ext_b", [BOOL], [BOOL]), self.m.decl("ext_f", [F64], [F64]), self.m.decl("ext_i", [I6], [I6])]
        f = self.m.main([QB] * nq + [BOOL, F64, I6], None)
        from .gen import Env
        e = Env()
        e.addall(f.ins)
        if self.r.random() < .3:
            self.stmt(f, e, 1)
        cs = [self.context(f, e) for _ in range(self.r.choice([1, 1, 2]))]
        self.steps(f, e, cs, depth, size)
        for c in cs:
            f.op(G + "dispose_context", [c], [], [], ordered=True)
        o = list(e.of(QB))
        for t in (BOOL, I6, F64):
            o += [w for w in e.of(t) if w.n != f.ins[0].n][-4:]
        f.out(o)
        self.m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
        return self.m.json()
