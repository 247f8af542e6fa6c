"""Symbolic executor for HUGR programs: forks on measurement outcomes and symbolic branches."""
import z3
from fractions import Fraction as F
from . import sym as S
from .sym import Poly, BV, Unsupported, num, band, bor, bnot, bxor
from .hg import Graph, rows_of, OPT


class Inconclusive(Exception):
    pass


class Q:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class Sm:
    __slots__ = ("tag", "vs")

    def __init__(self, tag, vs):
        self.tag, self.vs = tag, tuple(vs)


class Arr:
    """items; None = borrowed out"""
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = tuple(it)


class Fut:
    __slots__ = ("v", "id")

    def __init__(self, v, id=None):
        self.v, self.id = v, id


class Fnv:
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class Err:
    __slots__ = ("code", "msg")

    def __init__(self, code, msg):
        self.code, self.msg = code, msg


class Opq:
    """opaque token: compares by identity of its key"""
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = k


UNITV = Sm(0, ())


class Path:
    __slots__ = ("q", "conds", "ev", "nmeas", "cnt", "meas", "heap")

    def __init__(self, q, conds=(), ev=(), nmeas=0, cnt=None, meas=(), heap=None):
        self.q, self.conds, self.ev, self.nmeas = q, conds, ev, nmeas
        self.cnt = cnt or {}
        self.meas = meas
        self.heap = heap or {}

    def w(self, **k):
        p = Path(self.q, self.conds, self.ev, self.nmeas, self.cnt, self.meas, self.heap)
        for a, v in k.items():
            setattr(p, a, v)
        return p

    def count(self, name):
        c = dict(self.cnt)
        n = c.get(name, 0)
        c[name] = n + 1
        return self.w(cnt=c), n

    def event(self, *e):
        return self.w(ev=self.ev + (e,))


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.nodes = 0


def mapq(v, f):
    """replace qubits in a value, traversal order"""
    if isinstance(v, Q):
        return f(v)
    if isinstance(v, Sm):
        return Sm(v.tag, [mapq(x, f) for x in v.vs])
    if isinstance(v, Arr):
        return Arr([None if x is None else mapq(x, f) for x in v.it])
    return v


def qubits(v, out=None):
    out = [] if out is None else out
    mapq(v, lambda q: (out.append(q.id), q)[1])
    return out


class Frame:
    __slots__ = ("v", "up", "targs")

    def __init__(self, v, up, targs):
        self.v, self.up, self.targs = v, up, targs

    def copy(self):
        return Frame(dict(self.v), self.up, self.targs)

    def get(self, k):
        f = self
        while f is not None:
            if k in f.v:
                return f.v[k]
            f = f.up
        raise Inconclusive(f"wire {k} has no value")


class Interp:
    def __init__(self, graph, max_meas=6, max_loop=40, alloc_fail=False, numeric=False, oracle=None, opts=None,
                 deadline_paths=4000):
        self.g = graph if isinstance(graph, Graph) else Graph(graph)
        self.max_meas = max_meas
        self.max_loop = max_loop
        self.alloc_fail = alloc_fail
        self.done = []
        self.st = Stats()
        self.numeric = numeric
        self.oracle = oracle or {}
        self.opts = opts or {}
        self.maxpaths = deadline_paths
        self.solver = z3.Solver()
        self.solver.set("timeout", 5000)
        self.depth = 0

    def symbol(self, name, kind):
        env = self.opts.get("env")
        if kind == "b":
            return ebool(env, name) if env is not None and name in env else z3.Bool(name)
        if kind == "r":
            return S.num(F(env[name])) if env is not None and name in env else S.sym(name)
        return eint(env, name, kind) if env is not None and name in env else BV(kind, z3.BitVec(name, kind))

    def b2bv8(self, b):
        return BV(8, int(b)) if isinstance(b, bool) else S.bvs(8, z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))

    # ---------------------------------------------------------------- branching
    def feasible(self, conds):
        import time
        t = time.time()
        self.st.queries += 1
        r = self.solver.check(*conds) if False else None
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*conds)
        r = s.check()
        self.st.time += time.time() - t
        return r != z3.unsat

    def branch(self, path, b):
        """[(path, bool)]"""
        if isinstance(b, bool):
            return [(path, b)]
        if self.numeric:
            b2 = S._s(b)
            if isinstance(b2, bool):
                return [(path, b2)]
            b2 = S._s(z3.substitute(b2, *[(z3.Real("PI"), z3.RealVal("3.141592653589793238462643"))]))
            if isinstance(b2, bool):
                return [(path, b2)]
            raise Inconclusive(f"non-concrete branch in replay: {b2}")
        out = []
        for v in (True, False):
            c = b if v else z3.Not(b)
            cs = path.conds + (c,)
            if self.feasible(cs):
                out.append((path.w(conds=cs), v))
        return out

    def stop(self, path, kind, *pay):
        self.done.append((path, kind, pay))
        if len(self.done) > self.maxpaths:
            raise Inconclusive("too many paths")
        return []

    def measure(self, path, q, keep):
        """[(path', outcome)] ; keep: qubit stays"""
        if path.nmeas >= self.max_meas:
            return self.stop(path, "bound")
        out = []
        for v in (False, True):
            st = path.q.project(q.id, v)
            if st is None:
                continue
            if not keep:
                st = st.drop(q.id)
            p2 = path.w(q=st, nmeas=path.nmeas + 1)
            if self.opts.get("trace_meas"):
                p2 = p2.event("meas", v)
            out.append((p2, v))
        return out

    def reset(self, path, q):
        st = path.q
        d = st.definite(q.id)
        if d is False:
            return path
        st = st.drop(q.id)
        st, _ = st.alloc(q.id)
        return path.w(q=st)

    # ---------------------------------------------------------------- running
    def run_entry(self, path, args, node=None):
        n = self.g.entry if node is None else node
        op = self.g.nodes[n]["op"]
        if op == "Module":
            n = self.g.func("main")
        outs = self.region(n, path, args, None, ())
        nd = self.g.nodes[n]
        tys = nd["signature"]["body"]["output"] if "body" in nd["signature"] else nd["signature"]["output"]
        for p, o in outs:
            self.done.append((p, "ret", tuple(norm(v, t) for v, t in zip(o, tys))))
        return self.done

    def region(self, par, path, args, up, targs, capture=None):
        """dataflow region with Input/Output; -> [(path, outputs)]"""
        g = self.g
        self.depth += 1
        if self.depth > 60:
            raise Inconclusive("recursion depth")
        try:
            states = [(path, Frame({}, up, targs))]
            for n in g.topo(par):
                nd = g.nodes[n]
                op = nd["op"]
                if op == "Input":
                    for _, fr in states:
                        for i, a in enumerate(args):
                            fr.v[(n, i)] = a
                    continue
                if op in ("Const", "FuncDefn", "FuncDecl", "AliasDecl", "AliasDefn"):
                    continue
                if op == "Output":
                    res = []
                    k = len(nd["types"])
                    for p, fr in states:
                        o = [fr.get(g.inp[n][i]) for i in range(k)]
                        if capture is not None:
                            capture.append(fr)
                        res.append((p, o))
                    continue
                new = []
                for p, fr in states:
                    rs = self.node(n, nd, op, p, fr)
                    self.st.nodes += 1
                    for j, (p2, outs) in enumerate(rs):
                        f2 = fr if j == len(rs) - 1 else fr.copy()
                        if len(rs) > 1 and j < len(rs) - 1:
                            pass
                        for i, o in enumerate(outs):
                            f2.v[(n, i)] = o
                        new.append((p2, f2))
                states = new
                if len(states) > self.maxpaths:
                    raise Inconclusive("too many paths")
                if not states:
                    return []
            return res
        finally:
            self.depth -= 1

    def args(self, n, fr, k):
        g = self.g
        out = []
        for i in range(k):
            src = g.inp[n].get(i)
            if src is None:
                raise Inconclusive(f"port {n}.{i} unconnected")
            out.append(fr.get(src))
        return out

    def node(self, n, nd, op, path, fr):
        g = self.g
        if op == "Extension":
            ins = self.args(n, fr, len(nd["signature"]["input"]))
            return self.ext(n, nd, path, ins, fr)
        if op == "LoadConstant":
            c = g.inp[n][0][0]
            return [(path, [self.const(g.nodes[c]["v"])])]
        if op == "Tag":
            k = len(nd["variants"][nd["tag"]])
            ins = self.args(n, fr, k)
            if len(nd["variants"]) == 2 and not nd["variants"][0] and not nd["variants"][1]:
                return [(path, [nd["tag"] == 1])]
            return [(path, [Sm(nd["tag"], ins)])]
        if op == "DFG":
            ins = self.args(n, fr, len(nd["signature"]["input"]))
            return self.region(n, path, ins, fr, fr.targs)
        if op == "Conditional":
            rows = nd["sum_rows"]
            ins = self.args(n, fr, 1 + len(nd["other_inputs"]))
            out = []
            for p, tag, vs in self.untag(path, ins[0], rows):
                out += self.region(g.children[n][tag], p, list(vs) + ins[1:], fr, fr.targs)
            return out
        if op == "TailLoop":
            nj, nr = len(nd["just_inputs"]), len(nd["rest"])
            ins = self.args(n, fr, nj + nr)
            work = [(path, ins)]
            out = []
            for it in range(self.max_loop):
                nxt = []
                for p, a in work:
                    for p2, o in self.region(n, p, a, fr, fr.targs):
                        rows = [nd["just_inputs"], nd["just_outputs"]]
                        for p3, tag, vs in self.untag(p2, o[0], rows):
                            if tag == 0:
                                nxt.append((p3, list(vs) + o[1:]))
                            else:
                                out.append((p3, list(vs) + o[1:]))
                work = nxt
                if not work:
                    return out
            for p, _ in work:
                self.stop(p, "bound")
            return out
        if op == "CFG":
            ins = self.args(n, fr, len(nd["signature"]["input"]))
            entry = g.children[n][0]
            work = [(path, entry, ins, Frame({}, fr, fr.targs))]
            out = []
            steps = 0
            while work:
                p, b, a, cf = work.pop()
                bd = g.nodes[b]
                if bd["op"] == "ExitBlock":
                    out.append((p, a))
                    continue
                steps += 1
                if steps > 60 * self.max_loop:
                    raise Inconclusive("cfg steps")
                cap = []
                rs = self.region(b, p, a, cf, fr.targs, capture=cap)
                for (p2, o), bf in zip(rs, cap):
                    nf = Frame(dict(cf.v), fr, fr.targs)
                    nf.v.update(bf.v)
                    for p3, tag, vs in self.untag(p2, o[0], bd["sum_rows"]):
                        key = ("cfg", b)
                        p4, k = p3.count(key)
                        if k > self.max_loop:
                            self.stop(p4, "bound")
                            continue
                        work.append((p4, g.succ[b][tag], list(vs) + o[1:], nf))
            return out
        if op == "Call":
            inst = nd["instantiation"]
            k = len(inst["input"])
            ins = self.args(n, fr, k)
            f = g.inp[n][k][0]
            targs = tuple(self.targ(a, fr.targs) for a in nd["type_args"])
            return self.callf(f, path, ins, targs, len(inst["output"]), nd)
        if op == "LoadFunction":
            f = g.inp[n][0][0]
            targs = tuple(self.targ(a, fr.targs) for a in nd["type_args"])
            return [(path, [Fnv("fn", f, targs)])]
        if op == "CallIndirect":
            s = nd["signature"]
            ins = self.args(n, fr, 1 + len(s["input"]))
            return self.callv(ins[0], path, ins[1:])
        raise Unsupported(f"op {op}")

    def callf(self, f, path, ins, targs, nout, nd):
        fd = self.g.nodes[f]
        if fd["op"] == "FuncDecl":
            name = fd["name"]
            if name in self.oracle:
                return self.oracle[name](self, path, ins)
            path, k = path.count(("decl", name))
            path = path.event("call", name, tuple(norm(v, t) for v, t in zip(ins, nd["instantiation"]["input"])))
            outs = []
            qs = qubits(Sm(0, ins))
            for i, t in enumerate(nd["instantiation"]["output"]):
                if t["t"] == "Q":
                    if not qs:
                        raise Unsupported("extern function producing qubits")
                    outs.append(Q(qs.pop(0)))
                    continue
                path, v = fresh(path, t, f"{name}#{k}.{i}", self.opts.get("env"), self.opts)
                outs.append(v)
            return [(path, outs)]
        return self.region(f, path, ins, None, targs)

    def callv(self, fv, path, ins):
        if not isinstance(fv, Fnv):
            raise Inconclusive("call of a non-function")
        if fv.k == "fn":
            f, targs = fv.a
            fd = self.g.nodes[f]
            return self.callf(f, path, ins, targs, None, {"instantiation": fd["signature"]["body"]} if fd["op"] == "FuncDecl" else None)
        if fv.k == "hugr":
            sub = Interp(fv.a[0], self.max_meas, self.max_loop, self.alloc_fail, self.numeric, self.oracle, self.opts)
            r = sub.region(sub.g.entry, path, ins, None, ())
            self.done += sub.done
            return r
        # modifiers: act with the (controlled / inverted / powered) unitary of the function
        if fv.k == "ctrl":
            nc, f = fv.a
            cq = qubits(ins[0])
            rest = ins[1:]
            return self.unitary(f, path, rest, lambda U, k, st: ctrl_mat(U, k, len(cq), st.numeric), pre=cq, keep=[ins[0]])
        if fv.k == "dag":
            return self.unitary(fv.a[0], path, ins, lambda U, k, st: dag_mat(U, k, st.numeric))
        if fv.k == "pow":
            f, k = fv.a
            if not (isinstance(k, BV) and k.conc()):
                raise Inconclusive("symbolic power")
            e = k.signed()
            return self.unitary(f, path, ins, lambda U, kk, st: pow_mat(U, kk, e, st.numeric))
        raise Unsupported(f"function value {fv.k}")

    def unitary(self, f, path, ins, tr, pre=(), keep=()):
        """run f on a maximally entangled copy to obtain its matrix, transform it, apply to the real qubits"""
        qs = []
        for v in ins:
            qubits(v, qs)
        n = len(qs)
        if n + len(pre) > 6:
            raise Unsupported("modifier on too many qubits")
        st = type(path.q)()
        qmap, refs = {}, []
        for x in qs:
            st, q, r = st.bell()
            qmap[x] = q
            refs.append(r)
        ins2 = [mapq(v, lambda x: Q(qmap[x.id])) for v in ins]
        sub = path.w(q=st, nmeas=0)
        mark = len(self.done)
        ev0 = path.ev
        rs = self.callv(f, sub, ins2)
        if len(self.done) != mark:
            raise Unsupported("panic inside a modified function")
        out = []
        for p, outs in rs:
            if p.nmeas or p.ev != ev0:
                raise Unsupported("non-unitary modified function")
            oq = []
            for v in outs:
                qubits(v, oq)
            if len(oq) != n:
                raise Unsupported("modified function does not return its qubits")
            U, k = read_unitary(p.q, oq, refs)
            M, k2 = tr(U, k, p.q)
            tgt = list(pre) + qs
            if path.q.numeric:
                q2 = path.q.matrix(M, tgt)
            else:
                q2 = path.q.matrix(M, k2, tgt)
            back = {o: qs[i] for i, o in enumerate(oq)}
            outs2 = [mapq(v, lambda x: Q(back[x.id])) for v in outs]
            out.append((p.w(q=q2, nmeas=path.nmeas), list(keep) + outs2))
        return out

    def untag(self, path, v, rows):
        """[(path, tag, values)]"""
        if isinstance(v, bool) or z3.is_expr(v):
            return [(p, int(b), ()) for p, b in self.branch(path, v)]
        if isinstance(v, Sm):
            return [(path, v.tag, v.vs)]
        raise Inconclusive(f"branch on {v}")

    # ---------------------------------------------------------------- constants, args
    def targ(self, a, targs):
        if a["tya"] == "Variable":
            return targs[a["idx"]]
        if a["tya"] == "BoundedNat":
            return a["n"]
        if a["tya"] == "String":
            return a["arg"]
        return a

    def nat(self, a, fr):
        v = self.targ(a, fr.targs)
        if isinstance(v, dict):
            raise Inconclusive("type argument")
        return v

    def const(self, v):
        k = v["v"]
        if k == "Sum" or k == "Tuple":
            t = v.get("typ")
            if t is not None and t["t"] == "Sum":
                rows = rows_of(t)
                if len(rows) == 2 and not rows[0] and not rows[1]:
                    return v.get("tag", 0) == 1
            return Sm(v.get("tag", 0), [self.const(x) for x in v["vs"]])
        if k == "Function":
            h = v["hugr"]
            i = h.find("{")
            import json
            return Fnv("hugr", Graph(json.loads(h[i:])["modules"][0]))
        c, x = v["value"]["c"], v["value"]["v"]
        if c == "ConstF64":
            return S.from_float(x["value"])
        if c == "ConstRotation":
            return S.from_float(x["half_turns"])
        if c == "ConstInt":
            return BV(1 << x["log_width"], x["value"])
        if c == "ConstUsize":
            return BV(64, x)
        if c == "ConstBool":
            return bool(x)
        if c == "ConstGpuModule":
            return Opq("gpumodule", str(x))
        if c == "ConstString":
            return Str(x)
        if c == "ConstError":
            return Err(x["signal"], x["message"])
        if c in ("ArrayValue", "VArrayValue", "BArrayValue"):
            return Arr([self.const(y) for y in x["values"]])
        if c == "StaticArrayValue":
            return Arr([self.const(y) for y in x["value"]["values"]])
        if c == "ListValue":
            return Arr([self.const(y) for y in (x["0"] if isinstance(x, dict) and "0" in x else x[0])])
        raise Unsupported(f"constant {c}")

    # ---------------------------------------------------------------- extension ops
    def ext(self, n, nd, path, a, fr):
        ext, name, args = nd["extension"], nd["name"], nd["args"]
        f = EXT.get(ext)
        if f is None:
            raise Unsupported(f"extension {ext}")
        return f(self, name, args, path, a, nd, fr)


def ebool(env, name):
    v = env[name]
    return v if isinstance(v, bool) else bool(int(v * 1024) & 1)


def eint(env, name, w):
    v = env[name]
    return BV(w, v if isinstance(v, int) else int(v * 1024))


def is_lazy(t):
    """the lowered form of tket.bool: Sum[[bool],[Future<bool>]]"""
    if t["t"] != "Sum" or t["s"] == "Unit" or len(t["rows"]) != 2:
        return False
    r = t["rows"]
    return (len(r[0]) == 1 and len(r[1]) == 1 and r[1][0].get("id") == "Future" and r[0][0]["t"] == "Sum"
            and r[0][0] == {"t": "Sum", "s": "Unit", "size": 2})


def fresh(path, t, name, env=None, opts=None):
    """symbolic value of a type (concrete when env gives one)"""
    env = {} if env is None else env
    opts = opts or {}
    k = t["t"]
    if k == "Q":
        st, q, r = path.q.bell()
        path = path.w(q=st)
        return path, Q(q)
    if k == "I":
        return path, eint(env, name, 64) if name in env else BV(64, z3.BitVec(name, 64))
    if k == "Sum":
        rows = rows_of(t)
        if len(rows) == 2 and not rows[0] and not rows[1]:
            return path, ebool(env, name) if name in env else z3.Bool(name)
        if is_lazy(t):
            path, v = fresh(path, rows[0][0], name, env, opts)
            return path, (Sm(1, [Fut(v)]) if opts.get("lazy_inputs") else Sm(0, [v]))
        tag = 0 if len(rows) == 1 else opts.get("tags", {}).get(name)
        if tag is None:
            opts.setdefault("tags_seen", {})[name] = len(rows)
            tag = len(rows) - 1
        vs = []
        for i, x in enumerate(rows[tag]):
            path, v = fresh(path, x, f"{name}.{i}", env, opts)
            vs.append(v)
        return path, Sm(tag, vs)
    if k == "Opaque":
        i = t["id"]
        if i in ("float64", "rotation"):
            return path, S.num(F(env[name])) if name in env else S.sym(name)
        if i == "bool":
            return path, ebool(env, name) if name in env else z3.Bool(name)
        if i == "int":
            w = 1 << t["args"][0]["n"]
            return path, eint(env, name, w) if name in env else BV(w, z3.BitVec(name, w))
        if i in ("array", "borrow_array", "value_array"):
            vs = []
            for j in range(t["args"][0]["n"]):
                path, v = fresh(path, t["args"][1]["ty"], f"{name}.{j}", env, opts)
                vs.append(v)
            return path, Arr(vs)
        if i == "Future":
            path, v = fresh(path, t["args"][0]["ty"], name, env, opts)
            return path, Fut(v)
        return path, Opq(name)
    raise Unsupported(f"fresh {t}")


def norm(v, t):
    """erase representation changes the lowering is allowed to make: lazy booleans, futures, array kinds"""
    if isinstance(v, Fut):
        return norm(v.v, t["args"][0]["ty"] if t.get("id") == "Future" else t)
    k = t["t"]
    if k == "Sum" and isinstance(v, Sm):
        if is_lazy(t):
            x = v.vs[0]
            return x.v if isinstance(x, Fut) else x
        row = rows_of(t)[v.tag]
        return Sm(v.tag, [norm(x, y) for x, y in zip(v.vs, row)])
    if isinstance(v, Arr) and k == "Opaque":
        el = t["args"][-1]["ty"] if t["args"] else None
        return Arr([None if x is None else norm(x, el) for x in v.it]) if el else v
    return v


# -------------------------------------------------------------------- matrices
def read_unitary(st, oq, refs):
    n = len(oq)
    N = 1 << n
    if st.numeric:
        import numpy as np
        order = [st.order.index(q) for q in oq] + [st.order.index(r) for r in refs]
        rest = [i for i in range(len(st.order)) if i not in order]
        v = np.transpose(st.vec, order + rest).reshape(N, N, -1)
        if v.shape[2] != 1:
            nz = [i for i in range(v.shape[2]) if np.abs(v[:, :, i]).max() > 1e-9]
            if len(nz) != 1:
                raise Unsupported("non-unitary modified function")
            return v[:, :, nz[0]], 0
        return v[:, :, 0], 0
    vs = st.vectors(list(oq) + list(refs))
    if len(vs) != 1:
        raise Unsupported("non-unitary modified function")
    v = vs[0]
    U = [[v.get(r * N + c, {}) for c in range(N)] for r in range(N)]
    return U, st.scale


def ctrl_mat(U, k, nc, numeric):
    from . import qstate as qs
    if numeric:
        import numpy as np
        N = len(U)
        M = np.eye(N << nc, dtype=complex)
        M[-N:, -N:] = U
        return M, 0
    if k % 2:
        U = [[qs.amul(x, qs.SQRT2) for x in r] for r in U]
        k += 1
    one = {(0, ()): 1 << (k // 2)} if k >= 0 else None
    N = len(U)
    T = N << nc
    M = [[{} for _ in range(T)] for _ in range(T)]
    for i in range(T - N):
        M[i][i] = one
    for i in range(N):
        for j in range(N):
            M[T - N + i][T - N + j] = U[i][j]
    return M, k


def dag_mat(U, k, numeric):
    from . import qstate as qs
    if numeric:
        return U.conj().T, 0
    N = len(U)
    return [[qs.aconj(U[j][i]) for j in range(N)] for i in range(N)], k


def pow_mat(U, k, e, numeric):
    from . import qstate as qs
    if e < 0:
        U, k = dag_mat(U, k, numeric)
        e = -e
    if numeric:
        import numpy as np
        return np.linalg.matrix_power(U, e), 0
    if e > 8:
        raise Unsupported("large power")
    N = len(U)
    R, rk = [[qs.ONE if i == j else {} for j in range(N)] for i in range(N)], 0
    for _ in range(e):
        R, rk = qs.matmul((U, k), (R, rk))
    return R, rk


# -------------------------------------------------------------------- extension semantics
def x_quantum(I, name, args, p, a, nd, fr):
    if name in ("Rx", "Ry", "Rz"):
        p = touch(I, p, [a[0].id])
        return [(p.w(q=p.q.gate(name, [a[0].id], [a[1]])), [a[0]])]
    if name == "CRz":
        return [(p.w(q=p.q.gate("CRz", [a[0].id, a[1].id], [a[2]])), a[:2])]
    if name == "Measure":
        return [(p2, [a[0], v]) for p2, v in I.measure(p, a[0], True)]
    if name == "MeasureFree":
        return [(p2, [v]) for p2, v in I.measure(p, a[0], False)]
    if name == "Reset":
        return [(I.reset(p, a[0]), [a[0]])]
    if name == "QAlloc":
        return qalloc(I, p, True)
    if name == "TryQAlloc":
        return qalloc(I, p, False)
    if name == "QFree":
        return [(p.w(q=p.q.drop(a[0].id)), [])]
    if name == "symbolic_angle":
        s = I.nat(args[0], fr)
        env = I.opts.get("angles", {})
        return [(p, [env[s] if s in env else I.symbol(s, "r")])]
    if name in ("V", "Vdg") and I.opts.get("v_sqrtx"):
        name = {"V": "SX", "Vdg": "SXdg"}[name]
    return [(p.w(q=p.q.gate(name, [x.id for x in a])), list(a))]


def qalloc(I, p, must):
    def ok(p):
        st, q = p.q.alloc()
        p, k = p.w(q=st).count("qseq")
        return p.w(cnt=dict(p.cnt, **{f"q{q}": k})), Q(q)

    if not I.alloc_fail:
        p2, q = ok(p)
        return [(p2, [q if must else Sm(1, [q])])]
    p, k = p.count("qalloc")
    out = []
    for p2, v in I.branch(p, I.symbol(f"alloc_ok#{k}", "b")):
        if v:
            p3, q = ok(p2)
            out.append((p3, [q if must else Sm(1, [q])]))
        elif must:
            I.stop(p2, "panic", Err(1, "No more qubits available to allocate."))
        else:
            out.append((p2, [Sm(0, [])]))
    return out


def touch(I, p, qs):
    """count what happened to a qubit, when barriers are observed"""
    if I.opts.get("barriers"):
        for q in qs:
            p, _ = p.count(f"touch{q}")
    return p


def barrier(I, p, qs):
    """which qubits, and after how many rotations and barriers on each"""
    if not I.opts.get("barriers") or not qs:
        return p
    w = sorted(zip(map(str, ids(p, [Q(q) for q in qs])), [p.cnt.get(f"touch{q}", 0) for q in qs]))
    return touch(I, p, qs).event("barrier", tuple(w))


def held(t, v):
    """the qubits a barrier on a value of this type is about: qubits in tuples and arrays, and optional qubits in arrays"""
    if t["t"] == "Q":
        return [v.id]
    if t["t"] == "Sum" and t["s"] != "Unit" and len(t["rows"]) == 1:
        return [q for x, y in zip(t["rows"][0], v.vs) for q in held(x, y)]
    if t["t"] == "Opaque" and t["id"] in ("array", "borrow_array", "value_array"):
        e = t["args"][1]["ty"]
        if e == OPT({"t": "Q"}):
            return [x.vs[0].id for x in v.it]
        return [q for x in v.it for q in held(e, x)]
    return []


def x_qsystem(I, name, args, p, a, nd, fr):
    h = lambda x: x * S.INVPI
    if name == "Rz":
        p = touch(I, p, [a[0].id])
        return [(p.w(q=p.q.gate("Rz", [a[0].id], [h(a[1])])), [a[0]])]
    if name == "PhasedX":
        return [(p.w(q=p.q.gate("PhasedX", [a[0].id], [h(a[1]), h(a[2])])), [a[0]])]
    if name == "ZZPhase":
        return [(p.w(q=p.q.gate("ZZPhase", [a[0].id, a[1].id], [h(a[2])])), a[:2])]
    if name == "Measure":
        return [(p2, [v]) for p2, v in I.measure(p, a[0], False)]
    if name == "LazyMeasure":
        return [(p2, [Fut(v)]) for p2, v in I.measure(p, a[0], False)]
    if name == "LazyMeasureLeaked":
        return [(p2, [Fut(BV(64, int(v)))]) for p2, v in I.measure(p, a[0], False)]
    if name in ("LazyMeasureReset", "MeasureReset"):
        out = []
        for p2, v in I.measure(p, a[0], False):
            st, _ = p2.q.alloc(a[0].id)
            out.append((p2.w(q=st), [a[0], Fut(v) if name[0] == "L" else v]))
        return out
    if name == "Reset":
        return [(I.reset(p, a[0]), [a[0]])]
    if name == "QFree":
        return [(p.w(q=p.q.drop(a[0].id)), [])]
    if name == "TryQAlloc":
        return qalloc(I, p, False)
    if name == "RuntimeBarrier":
        return [(barrier(I, p, [q.id for q in a[0].it]), [a[0]])]
    raise Unsupported(f"qsystem.{name}")


def x_rot(I, name, args, p, a, nd, fr):
    if name == "radd":
        return [(p, [a[0] + a[1]])]
    if name == "from_halfturns":
        return [(p, [Sm(1, [a[0]])])]
    return [(p, [a[0]])]


def x_tbool(I, name, args, p, a, nd, fr):
    if name in ("read", "make_opaque"):
        return [(p, [a[0]])]
    return x_logic(I, {"and": "And", "or": "Or", "not": "Not", "eq": "Eq", "xor": "Xor"}[name], args, p, a, nd, fr)


def x_logic(I, name, args, p, a, nd, fr):
    if name == "Not":
        return [(p, [bnot(a[0])])]
    r = a[0]
    f = {"And": band, "Or": bor, "Xor": bxor, "Eq": lambda x, y: bnot(bxor(x, y))}[name]
    for b in a[1:]:
        r = f(r, b)
    return [(p, [r])]


def x_futures(I, name, args, p, a, nd, fr):
    if name == "Read":
        return [(p, [a[0].v])]
    if name == "Dup":
        return [(p, [a[0], a[0]])]
    return [(p, [])]


def x_prelude(I, name, args, p, a, nd, fr):
    if name == "MakeTuple":
        return [(p, [Sm(0, a)])]
    if name == "UnpackTuple":
        return [(p, list(a[0].vs))]
    if name == "Barrier":
        if I.opts.get("barriers") == "source":
            p = barrier(I, p, [q for t, v in zip(args[0]["elems"], a) for q in held(t["ty"], v)])
        return [(p, list(a))]
    if name == "Noop":
        return [(p, list(a))]
    if name == "panic" or name == "exit":
        return I.stop(p, name, a[0])
    if name == "MakeError":
        return [(p, [Err(a[0].v if a[0].conc() else a[0], a[1].s if isinstance(a[1], Str) else a[1])])]
    if name == "print":
        return [(p.event("print", a[0]), [])]
    if name == "load_nat":
        return [(p, [BV(64, I.nat(args[0], fr))])]
    raise Unsupported(f"prelude.{name}")


def x_float(I, name, args, p, a, nd, fr):
    if name == "fadd":
        r = a[0] + a[1]
    elif name == "fsub":
        r = a[0] - a[1]
    elif name == "fmul":
        r = a[0] * a[1]
    elif name == "fdiv":
        r = S.fdiv(a[0], a[1])
    elif name == "fneg":
        r = -a[0]
    elif name in ("fabs", "fmax", "fmin", "ffloor", "fceil", "fround", "fpow"):
        r = S.uni(name, *a)
    elif name in ("feq", "fne", "flt", "fgt", "fle", "fge"):
        d = a[0] - a[1]
        if d.is_num():
            v = d.value()
            r = {"feq": v == 0, "fne": v != 0, "flt": v < 0, "fgt": v > 0, "fle": v <= 0, "fge": v >= 0}[name]
        else:
            z = S.to_z3r(d)
            r = S.zbool({"feq": z == 0, "fne": z != 0, "flt": z < 0, "fgt": z > 0, "fle": z <= 0, "fge": z >= 0}[name])
    else:
        raise Unsupported(f"float.{name}")
    return [(p, [r])]


def x_conv(I, name, args, p, a, nd, fr):
    x = a[0]
    if name in ("convert_u", "convert_s"):
        if x.conc():
            return [(p, [num(x.v if name[-1] == "u" else x.signed())])]
        S.UNI.setdefault(f"{name}[{x.v.sexpr()}]", None)
        return [(p, [S.sym(f"{name}[{x.v.sexpr()}]")])]
    if name == "ifrombool":
        if isinstance(x, bool):
            return [(p, [BV(1, int(x))])]
        return [(p, [S.bvs(1, z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))])]
    if name == "itobool":
        return [(p, [bool(x.v) if x.conc() else S.zbool(x.v == 1)])]
    if name in ("itousize", "ifromusize"):
        return [(p, [x])]
    if name in ("trunc_u", "trunc_s"):
        w = 1 << I.nat(args[0], fr)
        if x.is_num():
            import math
            v = math.trunc(x.value())
            lo, hi = (0, 2**w) if name[-1] == "u" else (-2 ** (w - 1), 2 ** (w - 1))
            return [(p, [Sm(1, [BV(w, v)]) if lo <= v < hi else Sm(0, [Err(2, "trunc")])])]
    raise Unsupported(f"conversions.{name}")


def x_int(I, name, args, p, a, nd, fr):
    w = 1 << I.nat(args[0], fr)
    conc = all(x.conc() for x in a)
    one = lambda v: [(p, [v])]
    if name in ("ieq", "ine", "ilt_u", "ilt_s", "igt_u", "igt_s", "ile_u", "ile_s", "ige_u", "ige_s"):
        x, y = a
        if conc:
            u, v = (x.signed(), y.signed()) if name.endswith("_s") else (x.v, y.v)
            return one({"ieq": u == v, "ine": u != v, "ilt": u < v, "igt": u > v, "ile": u <= v, "ige": u >= v}[name[:3]])
        u, v = x.z(), y.z()
        b = name[:3]
        if b == "ieq":
            e = u == v
        elif b == "ine":
            e = u != v
        elif name[-1] == "s":
            e = {"ilt": u < v, "igt": u > v, "ile": u <= v, "ige": u >= v}[b]
        else:
            e = {"ilt": z3.ULT, "igt": z3.UGT, "ile": z3.ULE, "ige": z3.UGE}[b](u, v)
        return one(S.zbool(e))
    z = [x.z() for x in a]
    bin_ = {"iadd": lambda x, y: x + y, "isub": lambda x, y: x - y, "imul": lambda x, y: x * y,
            "iand": lambda x, y: x & y, "ior": lambda x, y: x | y, "ixor": lambda x, y: x ^ y,
            "ishl": lambda x, y: x << y, "ishr": lambda x, y: z3.LShR(x, y),
            "imax_u": lambda x, y: z3.If(z3.UGT(x, y), x, y), "imin_u": lambda x, y: z3.If(z3.ULT(x, y), x, y),
            "imax_s": lambda x, y: z3.If(x > y, x, y), "imin_s": lambda x, y: z3.If(x < y, x, y),
            "irotl": lambda x, y: z3.RotateLeft(x, y), "irotr": lambda x, y: z3.RotateRight(x, y)}
    if name in bin_:
        return one(S.bvs(w, bin_[name](*z)))
    if name == "ineg":
        return one(S.bvs(w, -z[0]))
    if name == "inot":
        return one(S.bvs(w, ~z[0]))
    if name == "iabs":
        return one(S.bvs(w, z3.If(z[0] < 0, -z[0], z[0])))
    if name in ("iu_to_s", "is_to_u"):
        out = []
        for p2, neg in I.branch(p, a[0].signed() < 0 if conc else S.zbool(z[0] < 0)):
            if neg:
                I.stop(p2, "panic", Err(2, "iu_to_s argument out of bounds" if name == "iu_to_s" else "is_to_u called on negative value"))
            else:
                out.append((p2, [a[0]]))
        return out
    if name in ("inarrow_u", "inarrow_s"):
        w2 = 1 << I.nat(args[1], fr)
        if w2 == w:
            return one(Sm(1, [a[0]]))
        y = S.bvs(w2, z3.Extract(w2 - 1, 0, z[0]))
        back = (z3.ZeroExt if name[-1] == "u" else z3.SignExt)(w - w2, y.z())
        ok = z3.simplify(back == z[0])
        return [(p2, [Sm(1, [y]) if v else Sm(0, [Err(2, "Can't narrow into bounds")])]) for p2, v in I.branch(p, S.zbool(ok))]
    if name in ("iwiden_u", "iwiden_s"):
        w2 = 1 << I.nat(args[1], fr)
        return one(S.bvs(w2, (z3.ZeroExt if name[-1] == "u" else z3.SignExt)(w2 - w, z[0])))
    if name.startswith("idiv") or name.startswith("imod"):
        out = []
        for p2, zero in I.branch(p, a[1].v == 0 if a[1].conc() else S.zbool(z[1] == 0)):
            if zero:
                if "checked" in name:
                    out.append((p2, [Sm(0, [Err(2, "Attempted division by 0")])]))
                else:
                    I.stop(p2, "panic", Err(2, "Attempted division by 0"))
                continue
            if name[-1] == "u":
                d, m = z3.UDiv(*z), z3.URem(*z)
            else:
                # floor division by an unsigned divisor, remainder in [0, d)
                n1, d1 = z3.SignExt(1, z[0]), z3.ZeroExt(1, z[1])
                q = n1 / d1
                r = z3.SRem(n1, d1)
                q2 = z3.If(r < 0, q - 1, q)
                r2 = z3.If(r < 0, r + d1, r)
                d, m = z3.Extract(w - 1, 0, q2), z3.Extract(w - 1, 0, r2)
            d, m = S.bvs(w, d), S.bvs(w, m)
            vals = [d, m] if "divmod" in name else [d] if name.startswith("idiv") else [m]
            if "checked" in name:
                vals = [Sm(1, [Sm(0, vals)])] if "divmod" in name else [Sm(1, vals)]
            out.append((p2, vals))
        return out
    raise Unsupported(f"int.{name}")


def idx(I, p, i, n):
    """[(path, concrete index or None if out of range)]"""
    if i.conc():
        return [(p, i.v if i.v < n else None)]
    out = []
    for k in range(n):
        c = p.conds + (i.z() == k,)
        if I.feasible(c):
            out.append((p.w(conds=c), k))
    c = p.conds + (z3.UGE(i.z(), n),)
    if I.feasible(c):
        out.append((p.w(conds=c), None))
    return out


ARR_PANIC = Err("array", "array misuse")


def x_array(I, name, args, p, a, nd, fr):
    def pan(q, why):
        return I.stop(q, "panic", Err("array", why))

    def whole(q, arr):
        return None not in arr.it

    if name == "new_array":
        return [(p, [Arr(a)])]
    if name == "new_all_borrowed":
        return [(p, [Arr([None] * I.nat(args[0], fr))])]
    if name == "discard":
        return [(p, [])]
    if name in ("unpack", "to_array", "from_array", "clone"):
        if not whole(p, a[0]):
            return pan(p, "borrowed element")
        if name == "unpack":
            return [(p, list(a[0].it))]
        if name == "clone":
            return [(p, [a[0], a[0]])]
        return [(p, [a[0]])]
    if name == "discard_empty":
        return [(p, [])]
    if name == "discard_all_borrowed":
        if any(x is not None for x in a[0].it):
            return pan(p, "not all borrowed")
        return [(p, [])]
    it = a[0].it if a and isinstance(a[0], Arr) else ()
    out = []
    if name == "get":
        for q, k in idx(I, p, a[1], len(it)):
            if k is not None and it[k] is None:
                pan(q, "borrowed element")
                continue
            out.append((q, [Sm(0, []) if k is None else Sm(1, [it[k]]), a[0]]))
    elif name == "set":
        for q, k in idx(I, p, a[1], len(it)):
            if k is None:
                out.append((q, [Sm(0, [a[2], a[0]])]))
            elif it[k] is None:
                pan(q, "borrowed element")
            else:
                out.append((q, [Sm(1, [it[k], Arr(it[:k] + (a[2],) + it[k + 1:])])]))
    elif name == "swap":
        for q, i in idx(I, p, a[1], len(it)):
            for q2, j in idx(I, q, a[2], len(it)):
                if i is None or j is None:
                    out.append((q2, [Sm(0, [a[0]])]))
                elif it[i] is None or it[j] is None:
                    pan(q2, "borrowed element")
                else:
                    l = list(it)
                    l[i], l[j] = l[j], l[i]
                    out.append((q2, [Sm(1, [Arr(l)])]))
    elif name in ("pop_left", "pop_right"):
        if not it:
            return [(p, [Sm(0, [])])]
        x, r = (it[0], it[1:]) if name == "pop_left" else (it[-1], it[:-1])
        if x is None:
            return pan(p, "borrowed element")
        return [(p, [Sm(1, [x, Arr(r)])])]
    elif name == "borrow":
        for q, k in idx(I, p, a[1], len(it)):
            if k is None:
                pan(q, "index out of bounds")
            elif it[k] is None:
                pan(q, "borrowed element")
            else:
                out.append((q, [Arr(it[:k] + (None,) + it[k + 1:]), it[k]]))
    elif name == "return":
        for q, k in idx(I, p, a[1], len(it)):
            if k is None:
                pan(q, "index out of bounds")
            elif it[k] is not None:
                pan(q, "not borrowed")
            else:
                out.append((q, [Arr(it[:k] + (a[2],) + it[k + 1:])]))
    elif name == "is_borrowed":
        for q, k in idx(I, p, a[1], len(it)):
            if k is None:
                pan(q, "index out of bounds")
            else:
                out.append((q, [a[0], it[k] is None]))
    elif name == "repeat":
        n = I.nat(args[0], fr)
        work = [(p, ())]
        for _ in range(n):
            work = [(q2, done + (o[0],)) for q, done in work for q2, o in I.callv(a[0], q, [])]
        return [(q, [Arr(d)]) for q, d in work]
    elif name == "scan":
        work = [(p, (), list(a[2:]))]
        for x in it:
            if x is None:
                return pan(p, "borrowed element")
            work = [(q2, done + (o[0],), o[1:]) for q, done, accs in work for q2, o in I.callv(a[1], q, [x] + accs)]
        return [(q, [Arr(d)] + list(accs)) for q, d, accs in work]
    else:
        raise Unsupported(f"array.{name}")
    return out


def x_sarray(I, name, args, p, a, nd, fr):
    if name == "len":
        return [(p, [BV(64, len(a[0].it))])]
    return [(q, [Sm(0, []) if k is None else Sm(1, [a[0].it[k]])]) for q, k in idx(I, p, a[1], len(a[0].it))]


def x_list(I, name, args, p, a, nd, fr):
    it = a[0].it
    if name == "length":
        return [(p, [a[0], BV(64, len(it))])]
    if name == "push":
        return [(p, [Arr(it + (a[1],))])]
    if name == "pop":
        return [(p, [Arr(it[:-1]), Sm(1, [it[-1]])] if it else [a[0], Sm(0, [])])]
    if name == "get":
        return [(q, [Sm(0, []) if k is None else Sm(1, [it[k]])]) for q, k in idx(I, p, a[1], len(it))]
    raise Unsupported(f"list.{name}")


def x_result(I, name, args, p, a, nd, fr):
    tag = I.nat(args[0], fr)
    v = a[0]
    if "int" in name:  # reported as 64-bit numbers

        def wide(x):
            if not isinstance(x, BV) or x.w >= 64:
                return x
            if x.conc():
                return BV(64, x.v if "uint" in name else x.signed())
            return S.bvs(64, (z3.ZeroExt if "uint" in name else z3.SignExt)(64 - x.w, x.z()))
        v = Arr([wide(x) for x in v.it]) if isinstance(v, Arr) else wide(v)
    return [(p.event("result", name, tag, v), [])]


def x_modifier(I, name, args, p, a, nd, fr):
    if name == "ControlModifier":
        return [(p, [Fnv("ctrl", I.nat(args[0], fr), a[0])])]
    if name == "DaggerModifier":
        return [(p, [Fnv("dag", a[0])])]
    return [(p, [Fnv("pow", a[0], a[1])])]


def x_gphase(I, name, args, p, a, nd, fr):
    return [(p.w(q=p.q.phase(a[0])), [])]


def x_guppy(I, name, args, p, a, nd, fr):
    # drop: qubits never appear in droppable values
    q = p.q
    for x in qubits(a[0]):
        q = q.drop(x)
    return [(p.w(q=q), [])]


def ids(p, qs):
    """which qubits: the number of the input, or of the allocation"""
    return tuple(f"alloc{p.cnt[f'q{x.id}']}" if f"q{x.id}" in p.cnt else x.id for x in qs)


def x_debug(I, name, args, p, a, nd, fr):
    tag = I.nat(args[0], fr)
    return [(p.event("state", tag, ids(p, a[0].it) if I.opts.get("state_ids") else len(a[0].it)), [a[0]])]


def x_random(I, name, args, p, a, nd, fr):
    if name == "NewRNGContext":
        p, k = p.count("rng")
        if k:  # there is one generator only
            return [(p, [Sm(0, [])])]
        p = p.event("newrng", a[0])
        return [(p, [Sm(1, [Opq("rng", k, 0)])])]
    if name == "DeleteRNGContext":
        return [(p.event("delrng", a[0].k[1], a[0].k[2]), [])]
    _, k, c = a[0].k
    nxt = Opq("rng", k, c + 1)
    if name == "RandomAdvance":
        return [(p.event("rngadv", k, c, a[1]), [nxt])]
    nm = f"{name}.{k}.{c}"
    if name == "RandomFloat":
        return [(p, [I.symbol(nm, "r"), nxt])]
    p = p.event(name, k, c, *a[1:])
    return [(p, [I.symbol(nm, 32), nxt])]


def x_utils(I, name, args, p, a, nd, fr):
    return [(p, [I.symbol("shot", 64)])]


def x_gpu(I, name, args, p, a, nd, fr):
    """calls into the GPU library, in the form which the target's runtime offers: every one reports success or failure, and a failure ends the program with the
    library's message; the library is asked once whether it supports the interface, and once for the number of each named function"""
    def do(p, fn, *e):
        p, k = p.count("gpu")
        p = p.event("gpu", fn, *e)
        out = []
        for p2, ok in I.branch(p, S.zbool(I.symbol(f"gpu{k}", 8).z() != 0)):
            if ok:
                out.append((p2, k))
            else:
                gpu_fail(I, p2)
        return out

    def validated(p):
        if p.cnt.get("gpuv"):
            return [p]
        return [p2.w(cnt=dict(p2.cnt, gpuv=1)) for p2, _ in do(p, "gpu_validate_api", BV(64, 0), BV(64, 1), BV(64, 0))]

    if name == "get_context":
        return [(p2, [Sm(1, [I.symbol(f"gpu{k}.out", 64)])]) for p1 in validated(p) for p2, k in do(p1, "gpu_init", a[0])]
    if name == "dispose_context":
        return [(p2, []) for p2, _ in do(p, "gpu_discard", a[0])]
    if name == "lookup_by_id":
        return [(p, [BV(64, args[0]["n"])])]
    if name == "lookup_by_name":
        s = args[0].get("arg", args[0].get("s"))
        c = ("gpuf", s)
        if c in p.cnt:
            return [(p, [I.symbol(f"gpu{p.cnt[c]}.out", 64)])]
        return [(p2.w(cnt={**p2.cnt, c: k}), [I.symbol(f"gpu{k}.out", 64)]) for p1 in validated(p) for p2, k in do(p1, "gpu_get_function_id", s)]
    ins, outs = ([gpu_type(t["ty"]) for t in x["elems"]] for x in (args if name == "call" else [{"elems": []}] + args))
    if name == "call":
        vs = [I.b2bv8(v) if t == "b" else v for t, v in zip(ins, a[2:])]
        return [(p2, [a[0]]) for p2, _ in do(p, "gpu_call", a[0], a[1], BV(64, sum(1 if t == "b" else 8 for t in ins)), "".join(ins) + ":" + ("".join(outs) or "v"), *vs)]
    if name == "read_result":
        if not outs:
            return [(p, [a[0]])]
        return [(p2, [a[0], I.symbol(f"gpu{k}.{outs[0]}", 64 if outs[0] == "i" else "r")]) for p2, k in do(p, "gpu_get_result", a[0], BV(64, 8))]
    raise Unsupported(f"tket.gpu.{name}")


def gpu_type(t):
    if t["t"] == "I" or t.get("id") == "int" and t["args"][0].get("n") == 6:
        return "i"
    if t.get("id") == "float64":
        return "f"
    if t.get("id") == "bool" or t["t"] == "Sum" and t.get("s") == "Unit" and t["size"] == 2 or t["t"] == "Sum" and t.get("rows") == [[], []]:
        return "b"
    raise Unsupported(f"GPU argument {t}")


def gpu_fail(I, p):
    p = p.event("gpu", "gpu_get_error")
    p, k = p.count("gpue")
    for p2, none in I.branch(p, I.symbol(f"gpunomsg{k}", "b")):
        I.stop(p2, "panic", Err("panic_str 70002", "No error message available" if none else "the library's message"))


def x_ptr(I, name, args, p, a, nd, fr):
    if name == "New":
        p, k = p.count("ptr")
        h = dict(p.heap)
        h[k] = a[0]
        return [(p.w(heap=h), [Opq("ptr", k)])]
    k = a[0].k[1]
    if name == "Read":
        return [(p, [p.heap[k]])]
    h = dict(p.heap)
    h[k] = a[1]
    return [(p.w(heap=h), [])]


def x_tk1(I, name, args, p, a, nd, fr):
    """opaque pytket operations (`args` holds their JSON)"""
    import json
    from . import pytk
    return pytk.execute(I, json.loads(args[0]["arg"] if "arg" in args[0] else args[0]["s"])["op"], p, a)


EXT = {
    "TKET1": x_tk1,
    "tket.quantum": x_quantum, "tket.qsystem": x_qsystem, "tket.rotation": x_rot, "tket.bool": x_tbool,
    "logic": x_logic, "tket.futures": x_futures, "prelude": x_prelude, "arithmetic.float": x_float,
    "arithmetic.conversions": x_conv, "arithmetic.int": x_int, "collections.array": x_array,
    "collections.borrow_arr": x_array, "collections.value_array": x_array, "collections.static_array": x_sarray,
    "collections.list": x_list, "tket.result": x_result, "tket.modifier": x_modifier,
    "tket.global_phase": x_gphase, "tket.guppy": x_guppy, "tket.debug": x_debug,
    "tket.qsystem.random": x_random, "tket.qsystem.utils": x_utils, "ptr": x_ptr, "tket.gpu": x_gpu,
}
