"""Equivalence of two HUGR programs, decided by the solver for all inputs, angles and measurement outcomes
(within the interpreter's bounds), with concrete replay of any difference."""
import math
import os
import random
import time
from fractions import Fraction as F
import numpy as np
import z3
z3.set_param('memory_max_size', 4000)
from . import sym as S
from . import qstate as QS
from .sym import Poly, BV, Unsupported
from .interp import Interp, Path, Inconclusive, Sm, Arr, Q, Fut, Fnv, Str, Err, Opq, fresh, qubits, norm
from .hg import Graph

D = QS.D


class Res:
    def __init__(self, status, why="", env=None, st=None):
        self.status, self.why, self.env, self.st = status, why, env, st or {}

    def __repr__(self):
        return f"{self.status}: {self.why} {self.env or ''}"


# ------------------------------------------------------------------ running both sides
def entry_node(g, name):
    if name is None:
        n = g.entry
        if g.nodes[n]["op"] == "Module":
            n = g.func("main")
        return n
    n = g.func(name)
    if n is None:
        raise Inconclusive(f"no function {name}")
    return n


def run_side(j, state, entry, opts):
    """records [(conds, kind, events, payload, state)] and interp"""
    if isinstance(j, dict) and "llvm" in j:
        from . import llvm
        return llvm.run_side(j, state, opts)
    g = j if isinstance(j, Graph) else Graph(j)
    g.rev = bool(opts.get("rev"))
    n = entry_node(g, entry)
    nd = g.nodes[n]
    sg = nd["signature"]["body"] if "body" in nd["signature"] else nd["signature"]
    I = Interp(g, opts.get("max_meas", 7), opts.get("max_loop", 12), opts.get("alloc_fail", False),
               numeric=state.numeric, opts=opts, oracle=opts.get("oracle"))
    p = Path(state)
    args = []
    for i, t in enumerate(sg["input"]):
        p, v = fresh(p, t, f"in{i}", opts.get("env"), opts)
        args.append(v)
    inq = qubits(Sm(0, args))
    refs = [q for q in p.q.slots if q not in inq]
    I.run_entry(p, args, n)
    return I, refs


# ------------------------------------------------------------------ semantic equality of classical values
NEQ = object()


def veq(a, b, acc):
    """collect z3 equalities needed for a==b into acc; return False if certainly different"""
    if isinstance(a, Q) or isinstance(b, Q):
        return isinstance(a, Q) and isinstance(b, Q)
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        if not ((isinstance(a, bool) or z3.is_bool(a)) and (isinstance(b, bool) or z3.is_bool(b))):
            return False
        e = S.bnot(S.bxor(a, b))
        if isinstance(e, bool):
            return e
        acc.append(e)
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Poly):
        d = a - b
        if not d.t:
            return True
        if d.is_num():
            return abs(d.value()) < 1e-9 * (max(1.0, abs(a.value())) if a.is_num() else 1.0)
        acc.append(S.to_z3r(d) == 0)
        return True
    if isinstance(a, BV):
        if a.w != b.w:
            return False
        if a.conc() and b.conc():
            return a.v == b.v
        e = S.zbool(a.z() == b.z())
        if isinstance(e, bool):
            return e
        acc.append(e)
        return True
    if isinstance(a, Sm):
        return a.tag == b.tag and len(a.vs) == len(b.vs) and all(veq(x, y, acc) for x, y in zip(a.vs, b.vs))
    if isinstance(a, Arr):
        return len(a.it) == len(b.it) and all(
            (x is None and y is None) or (x is not None and y is not None and veq(x, y, acc)) for x, y in zip(a.it, b.it))
    if isinstance(a, Fut):
        return veq(a.v, b.v, acc)
    if isinstance(a, Str):
        return a.s == b.s
    if isinstance(a, Err):
        return (a.code == b.code if not isinstance(a.code, BV) else veq(a.code, b.code, acc)) and a.msg == b.msg
    if isinstance(a, Opq):
        return a.k == b.k
    if isinstance(a, Fnv):
        return a.k == b.k
    if isinstance(a, (str, int)) or a is None:
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(veq(x, y, acc) for x, y in zip(a, b))
    raise Inconclusive(f"value comparison of {type(a)}")


def key_of(rec, opts):
    p, kind, pay = rec
    ev = p.ev
    if opts.get("skip_ev"):
        ev = tuple(e for e in ev if e[0] not in opts["skip_ev"])
    if not opts.get("ordered", True):
        ev = tuple(sorted(ev, key=lambda e: repr(e[:3])))
    return (kind, ev, pay)


class Split(Exception):
    def __init__(self, e):
        self.e = e


class Cmp:
    def __init__(self, opts):
        self.opts = opts
        self.q = 0
        self.t = 0.0
        self.entries = 0
        self.timeout = opts.get("timeout", 20000)

    def check(self, cs, want_model=False):
        t = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*cs)
        r = s.check()
        self.q += 1
        self.t += time.time() - t
        if r == z3.unknown:
            raise Inconclusive(f"solver: {s.reason_unknown()}")
        if r == z3.sat:
            return s.model() if want_model else True
        return None if want_model else False

    def same_key(self, a, b, cell):
        acc = []
        if not veq(a, b, acc):
            return False
        if not acc:
            return True
        e = z3.And(*acc) if len(acc) > 1 else acc[0]
        f = S._s(e)
        if isinstance(f, bool):
            return f
        neg = self.check(cell + [z3.Not(e)])
        if not neg:
            return True
        if not self.check(cell + [e]):
            return False
        raise Split(e)

    # ---------------------------------------------------------------- cells
    def cells(self, conds):
        atoms = []
        seen = set()
        for c in conds:
            for x in c:
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    atoms.append(x)
        if not atoms:
            yield [], {}
            return
        s = z3.Solver()
        s.set("timeout", self.timeout)
        n = 0
        while True:
            t = time.time()
            r = s.check()
            self.q += 1
            self.t += time.time() - t
            if r == z3.unsat:
                return
            if r == z3.unknown:
                raise Inconclusive("cell enumeration: " + s.reason_unknown())
            m = s.model()
            sg = {}
            for x in atoms:
                v = m.eval(x, model_completion=True)
                if not (z3.is_true(v) or z3.is_false(v)):
                    raise Inconclusive(f"cannot evaluate {x}")
                sg[x.get_id()] = z3.is_true(v)
            # the region on which the same records are active: on either side the records of one input partition the outcome histories,
            # so the conditions of the active ones exclude all others
            keep, seen = [], set()
            for c in conds:
                if all(sg[x.get_id()] for x in c):
                    for x in c:
                        if x.get_id() not in seen:
                            seen.add(x.get_id())
                            keep.append(x)
            cell = keep
            if not cell:
                yield [], sg
                return
            yield cell, sg
            n += 1
            if n > self.opts.get("max_cells", 600):
                raise Inconclusive("too many cells")
            s.add(z3.Not(z3.And(*cell)))

    # ---------------------------------------------------------------- state comparison
    def outq(self, rec, refs):
        p, kind, pay = rec
        qs = qubits(Sm(0, pay)) if kind == "ret" else []
        return qs + list(refs)

    def compare_group(self, A, B, refsA, refsB, cell):
        """A,B: records with equal keys. returns None if equal else list of z3 disjuncts describing a difference"""
        va, vb = [], []
        for recs, refs, out in ((A, refsA, va), (B, refsB, vb)):
            for r in recs:
                st = r[0].q
                for v in st.vectors(self.outq(r, refs)):
                    out.append((v, st.scale))
        diffs = []
        if len(va) == 1 and len(vb) == 1:
            (v, s), (w, t) = va[0], vb[0]
            p = min(v, key=lambda i: (len(v[i]), i))
            if p not in w:
                return [(v[p], s, {}, 0)]
            cv, cw = QS.aconj(v[p]), QS.aconj(w[p])
            for i in set(v) | set(w):
                l = QS.amul(v.get(i, {}), cv)
                r = QS.amul(w.get(i, {}), cw)
                diffs.append((l, 2 * s, r, 2 * t))
            return diffs
        # cancel vectors that are identical up to phase
        def sig(v, s):
            p = min(v)
            c = QS.aconj(v[p])
            sc = 2 * s
            d = {}
            for i, a in v.items():
                x = QS.amul(a, c)
                d[i] = frozenset(x.items())
            return frozenset(d.items()), sc
        sa = [sig(*x) for x in va]
        sb = [sig(*x) for x in vb]
        from collections import Counter
        ca, cb = Counter(sa), Counter(sb)
        common = ca & cb
        ra, rb = ca - common, cb - common
        matched = common.copy()
        for k, n in common.items():
            # the cancelled pairs: one (trivial) query each, on the canonical forms
            diffs.append((dict(next(iter(k[0]))[1]) if k[0] else {}, k[1], dict(next(iter(k[0]))[1]) if k[0] else {}, k[1]))

        def rest(vs, sigs, left):
            out = []
            left = Counter(left)
            for v, g in zip(vs, sigs):
                if left[g] > 0:
                    left[g] -= 1
                    out.append(v)
            return out
        va, vb = rest(va, sa, ra), rest(vb, sb, rb)
        if not va and not vb:
            return diffs
        R = []
        for vs in (va, vb):
            smax = max((s for _, s in vs), default=0)
            rho = {}
            for v, s in vs:
                k = 2 ** (smax - s)
                conj = {j: QS.aconj(b) for j, b in v.items()}
                for i, a in v.items():
                    for j, b in conj.items():
                        if j < i:
                            continue
                        rho[(i, j)] = QS.aadd(rho.get((i, j), {}), QS.amul(a, b), k)
                if len(rho) > 300000:
                    raise Inconclusive("density too large")
            R.append((rho, 2 * smax))
        (ra, sa), (rb, sb) = R
        for ij in set(ra) | set(rb):
            diffs.append((ra.get(ij, {}), sa, rb.get(ij, {}), sb))
        return diffs

    def decide(self, diffs, cell):
        """is any pair (l,sl) != (r,sr) under the cell? -> None or z3 model info"""
        # bring to common scale; drop duplicates
        todo = {}
        ntriv = 0
        for l, sl, r, sr in diffs:
            m = max(sl, sr)
            if (m - sl) % 2 or (m - sr) % 2:
                m += 0
                l2 = QS.amul(l, QS.SQRT2) if (m - sl) % 2 else l
                r2 = QS.amul(r, QS.SQRT2) if (m - sr) % 2 else r
                kl, kr = (m - sl) // 2, (m - sr) // 2
            else:
                l2, r2, kl, kr = l, r, (m - sl) // 2, (m - sr) // 2
            l2 = {e: c << kl for e, c in l2.items()} if kl else l2
            r2 = {e: c << kr for e, c in r2.items()} if kr else r2
            self.entries += 1
            k = (frozenset(l2.items()), frozenset(r2.items()))
            todo.setdefault(k, (l2, r2))
        pairs = list(todo.values())
        # 1. linear abstraction: every product of unit complex numbers is an unconstrained value; unsat is conclusive
        if not self.check_linear(pairs):
            return None
        # 2. exact query per pair that the abstraction could not settle
        for p in pairs:
            if p[0] == p[1]:
                continue
            w = self.witness(p)
            if w is not None:
                return None, w
            if len(p[0]) + len(p[1]) > 4000:
                raise Inconclusive("polynomial too large")
            g = {}
            for a in p:
                for (n, at) in a:
                    for k, e in at:
                        g[k] = math.gcd(g.get(k, 0), e)
            if max((abs(e) // g[k] for a in p for (n, at) in a for k, e in at), default=0) > 200 or len(g) > 40:
                raise Inconclusive("polynomial too large")
            enc = Enc([p])
            m = self.check([z3.Or(*enc.neqs)] + enc.side, want_model=True)
            if m is not None:
                return enc, m
        return None

    def witness(self, pair):
        """values of the inputs at which the two sides of a pair differ, when a few trials find some (the replay has to confirm them)"""
        import cmath
        import random
        for t in range(3):
            r = random.Random(t)
            env = {"PI": math.pi}

            def atom(k):
                v = 1.0
                for nm, e in QS.atom_mono(k):
                    if nm not in env:
                        env[nm] = r.uniform(-2, 2)
                    v *= env[nm] ** e
                return v

            def value(a):
                x = 0
                for (n, at), c in sorted(a.items()):
                    x += c * cmath.exp(1j * math.pi / D * (n + sum(e * atom(k) for k, e in at)))
                return x
            a, b = value(pair[0]), value(pair[1])
            if abs(a - b) > 1e-6 * (1 + sum(map(abs, pair[0].values())) + sum(map(abs, pair[1].values()))):
                return dict(env)
        return None

    def check_linear(self, pairs):
        """True if some pair may differ. One SMT query in linear real arithmetic."""
        nm = {}
        out = []
        size = 0
        big = []
        for l, r in pairs:
            size += len(l) + len(r)
        if size > 60000:
            raise Inconclusive("state too large")
        ids = {}

        def lin(a):
            ts = []
            for e, c in a.items():
                k = ids.get(e)
                if k is None:
                    k = ids[e] = len(ids)
                ts.append(f"(* {c if c >= 0 else f'(- {-c})'} m{k})")
            if not ts:
                return "0"
            return ts[0] if len(ts) == 1 else "(+ " + " ".join(ts) + ")"
        for l, r in pairs:
            out.append(f"(not (= {lin(l)} {lin(r)}))")
        t = time.time()
        txt = "".join(f"(declare-const m{i} Real)" for i in range(len(ids)))
        # each complex product contributes independent real and imaginary parts with the same coefficients: one copy suffices
        txt += "(assert (or false " + " ".join(out) + "))"
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.from_string(txt)
        r = s.check()
        self.q += 1
        self.t += time.time() - t
        if r == z3.unknown:
            raise Inconclusive("solver: " + s.reason_unknown())
        return r == z3.sat


class Enc:
    """z3 encoding of Laurent polynomials in unit complex numbers"""

    def __init__(self, pairs):
        self.side = []
        self.units = {}
        g = {}
        cdy = 0
        odd = {}
        for l, r in pairs:
            for a in (l, r):
                for (n, at) in a:
                    for k, e in at:
                        g[k] = math.gcd(g.get(k, 0), e)
        self.g = g
        self.pairs = pairs
        self.neqs = []
        self.roots = {}
        for l, r in pairs:
            lr, li = self.poly(l)
            rr, ri = self.poly(r)
            self.neqs += [lr != rr, li != ri]

    def unit(self, key):
        if key not in self.units:
            i = len(self.units)
            x, y = z3.Real(f"ux{i}_{key}"), z3.Real(f"uy{i}_{key}")
            self.units[key] = (x, y)
            self.side.append(x * x + y * y == 1)
        return self.units[key]

    def root(self, n):
        """e^{i pi n/D}, n/D dyadic with small denominator, else a free unit"""
        q = F(n, D)
        if q == 0:
            return (z3.RealVal(1), z3.RealVal(0))
        if q == F(1, 2):
            return (z3.RealVal(0), z3.RealVal(1))
        den = q.denominator
        if den & (den - 1) == 0 and den <= 64:
            N = q.numerator
            b = self.base(den)
            return cpow(b, N)
        return self.unit(("c", n))

    def base(self, den):
        if den in self.roots:
            return self.roots[den]
        if den == 1:
            r = (z3.RealVal(-1), z3.RealVal(0))
        elif den == 2:
            r = (z3.RealVal(0), z3.RealVal(1))
        else:
            px, py = self.base(den // 2)
            x, y = z3.Real(f"cos_pi_{den}"), z3.Real(f"sin_pi_{den}")
            self.side += [x > 0, y > 0, 2 * x * x == 1 + px, x * x + y * y == 1, 2 * x * y == py]
            r = (x, y)
        self.roots[den] = r
        return r

    def poly(self, a):
        tr, ti = z3.RealVal(0), z3.RealVal(0)
        for (n, at), c in a.items():
            m = self.root(n)
            for k, e in at:
                m = cmul(m, cpow(self.unit(("a", k)), e // self.g[k]))
            tr = tr + c * m[0]
            ti = ti + c * m[1]
        return tr, ti

    def angles(self, model):
        """atom index -> value of the monomial (half-turns) from the model"""
        out = {}
        for key, (x, y) in self.units.items():
            if key[0] != "a":
                continue
            def f(e):
                v = model.eval(e, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                return float(v.as_fraction())
            th = math.atan2(f(y), f(x)) / math.pi
            out[key[1]] = th * (D / self.g[key[1]])
        return out


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cpow(a, n):
    if n < 0:
        a = (a[0], -a[1])
        n = -n
    r = None
    while n:
        if n & 1:
            r = a if r is None else cmul(r, a)
        a = cmul(a, a)
        n >>= 1
    return r if r is not None else (z3.RealVal(1), z3.RealVal(0))


# ------------------------------------------------------------------ main entry
def compare(before, after, opts=None):
    """before/after: HUGR json. opts: entry, max_meas, max_loop, alloc_fail, trace_meas, ordered, ..."""
    opts = dict(opts or {})
    t0 = time.time()
    C = Cmp(opts)
    st = {}
    try:
        gb, ga = Graph(before), after if "llvm" in after else Graph(after)
        IA, refsA = run_side(gb, QS.SymState(), opts.get("entry"), opts)
        IB, refsB = run_side(ga, QS.SymState(), opts.get("entry_after", opts.get("entry")), dict(opts, **opts.get("after_opts", {})))
        st = {"paths": len(IA.done) + len(IB.done), "nodes": IA.st.nodes + IB.st.nodes}
        C.q += IA.st.queries + IB.st.queries
        C.t += IA.st.time + IB.st.time
        work = list(C.cells([r[0].conds for r in IA.done + IB.done]))
        ncell = 0
        nrec = 0
        skipped = 0
        pert = opts.get("perturb")
        while work:
            cell, sg = work.pop()
            ncell += 1
            act = []
            for I in (IA, IB):
                act.append([r for r in I.done if all(sg[c.get_id()] for c in r[0].conds)])
            if any(r[1] == "bound" for l in act for r in l):
                if not opts.get("trace_meas"):
                    skipped += 1
                    continue
                bounds = True
            A, B = ([r for r in l if r[1] != "bound"] for l in act)
            if pert:
                B = [pert(r) for r in B]
            try:
                groups = []
                for side, recs in ((0, A), (1, B)):
                    for r in recs:
                        k = key_of(r, opts)
                        for gk, lists in groups:
                            if C.same_key(gk, k, cell):
                                lists[side].append(r)
                                break
                        else:
                            groups.append((k, ([], [])))
                            groups[-1][1][side].append(r)
            except Split as s:
                for lit in (s.e, z3.Not(s.e)):
                    work.append((cell + [lit], sg))
                continue
            for k, (a, b) in groups:
                nrec += 1
                if a and b:
                    d = C.compare_group(a, b, refsA, refsB, cell)
                elif a or b:
                    recs, refs = (a, refsA) if a else (b, refsB)
                    v = None
                    d = []
                    for r in recs:
                        d.append((r[0].q.norm2(), 2 * r[0].q.scale, {}, 0))
                else:
                    continue
                r = C.decide(d, cell)
                if r is not None:
                    enc, m = r
                    return Res("diff", describe(k, a, b), (cell, enc, m), stats(C, st, ncell, nrec, skipped, t0))
        if nrec == 0:
            return Res("inconclusive", "nothing compared", st=stats(C, st, ncell, nrec, skipped, t0))
        return Res("equal", st=stats(C, st, ncell, nrec, skipped, t0))
    except (Inconclusive, Unsupported, z3.Z3Exception) as e:
        return Res("inconclusive", f"{type(e).__name__}: {e}", st=stats(C, st, 0, 0, 0, t0))


def stats(C, st, ncell, nrec, skipped, t0):
    return dict(st, cells=ncell, records=nrec, skipped_cells=skipped, queries=C.q, solver_s=round(C.t, 3),
                entries=C.entries, wall=round(time.time() - t0, 3))


def show(v):
    if isinstance(v, Q):
        return "qubit"
    if isinstance(v, Sm):
        return f"({v.tag}|{','.join(map(show, v.vs))})"
    if isinstance(v, Arr):
        return "[" + ",".join("_" if x is None else show(x) for x in v.it) + "]"
    if isinstance(v, Err):
        return f"Err({v.code},{v.msg})"
    if isinstance(v, Str):
        return repr(v.s)
    if isinstance(v, tuple):
        return "(" + ",".join(map(show, v)) + ")"
    if isinstance(v, Fut):
        return show(v.v)
    return str(v)


def describe(k, a, b):
    which = "state differs" if a and b else ("only before" if a else "only after")
    return f"{which}: {k[0]} events={show(k[1])[:200]} value={show(k[2])[:200]}"


# ------------------------------------------------------------------ concrete replay
def input_syms(g, entry, opts):
    """names and kinds of the symbolic inputs"""
    n = entry_node(g, entry)
    sg = g.nodes[n]["signature"]
    sg = sg.get("body", sg)
    p = Path(QS.SymState())
    vals = []
    for i, t in enumerate(sg["input"]):
        p, v = fresh(p, t, f"in{i}", None, dict(opts))
        vals.append(v)
    out = {}

    def walk(v):
        if isinstance(v, Poly):
            for s in v.syms():
                out[s] = "r"
        elif isinstance(v, BV) and not v.conc():
            out[str(v.v)] = ("bv", v.w)
        elif z3.is_bool(v):
            out[str(v)] = "b"
        elif isinstance(v, Sm):
            for x in v.vs:
                walk(x)
        elif isinstance(v, Arr):
            for x in v.it:
                walk(x)
        elif isinstance(v, Fut):
            walk(v.v)
    for v in vals:
        walk(v)
    return out


class EnvMap(dict):
    """values for symbols; unknown ones get deterministic pseudo-random values by name"""

    def __init__(self, base, seed):
        super().__init__(base)
        self.seed = seed

    def __contains__(self, k):
        return isinstance(k, str)

    def __missing__(self, k):
        rnd = random.Random(f"{self.seed}/{k}")
        v = F(rnd.randint(-4096, 4096), 1024)
        self[k] = v
        return v


def num_records(j, entry, opts):
    """{key: density} by the independent dense simulator"""
    I, refs = run_side(j, QS.NumState(), entry, opts)
    out = []
    for r in I.done:
        if r[1] == "bound":
            if opts.get("trace_meas"):
                continue
            return None
        p, kind, pay = r
        k = key_of(r, opts)
        order = (qubits(Sm(0, pay)) if kind == "ret" else []) + list(refs)
        rho = p.q.rho(order)
        out.append((k, rho))
    return out


def numeric_compare(before, after, opts, env):
    """None if the two agree numerically on this concrete input, else a description"""
    o = dict(opts, env=env)
    A = num_records(before, o.get("entry"), o)
    B = num_records(after, o.get("entry_after", o.get("entry")), dict(o, **o.get("after_opts", {})))
    if A is None or B is None:
        return None
    groups = []
    for side, recs in ((0, A), (1, B)):
        for k, rho in recs:
            for g in groups:
                acc = []
                if veq_num(g[0], k):
                    g[1][side] = rho if g[1][side] is None else g[1][side] + rho
                    break
            else:
                groups.append((k, [None, None]))
                groups[-1][1][side] = rho
    for k, (a, b) in groups:
        z = np.zeros_like(a if a is not None else b)
        a = z if a is None else a
        b = z if b is None else b
        n = max(1.0, np.abs(np.trace(a)).real, np.abs(np.trace(b)).real)
        if a.shape != b.shape or np.abs(a - b).max() > 1e-6 * n:
            return f"{k[0]} events={show(k[1])[:160]} value={show(k[2])[:160]}: weight {np.trace(a).real:.6f} vs {np.trace(b).real:.6f}, max entry difference {np.abs(a - b).max():.3g}"
    return None


def veq_num(a, b):
    acc = []
    if not veq(a, b, acc):
        return False
    for e in acc:
        e = S._s(z3.substitute(e, (z3.Real("PI"), z3.RealVal("3.141592653589793238462643"))))
        if e is True:
            continue
        if e is False:
            return False
        raise Inconclusive("symbolic value in replay")
    return True


def concretise(res, before, opts, tries=24):
    """candidate concrete environments for a symbolic difference"""
    cell, enc, m = res.env
    g = Graph(before)
    syms = input_syms(g, opts.get("entry"), opts)
    base = {}
    if cell:
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*cell)
        if s.check() == z3.sat:
            mm = s.model()
            for d in mm.decls():
                v = mm[d]
                nm = d.name()
                if z3.is_bv_value(v):
                    base[nm] = v.as_long()
                elif z3.is_true(v) or z3.is_false(v):
                    base[nm] = z3.is_true(v)
                elif z3.is_rational_value(v):
                    if nm != "PI":
                        base[nm] = v.as_fraction()
                elif z3.is_algebraic_value(v):
                    base[nm] = v.approx(15).as_fraction()
    for n, k in syms.items():
        if k == "b":
            base.setdefault(n, False)
        elif k != "r":
            base.setdefault(n, 0)
    ang = {k: F(v).limit_denominator(10**9) for k, v in m.items() if k != "PI"} if enc is None else {}
    try:
        for k, v in (enc.angles(m).items() if enc is not None else ()):
            mono = QS.atom_mono(k)
            ss = [(s, p) for s, p in mono if s != "PI"]
            if len(ss) == 1 and ss[0][1] == 1:
                for s, p in mono:
                    if s == "PI":
                        v = v / math.pi ** p
                ang.setdefault(ss[0][0], F(v).limit_denominator(10**9))
    except Exception:
        pass
    for t in range(tries):
        e = EnvMap({}, t)
        if t < tries // 2:
            for k, v in base.items():
                dict.__setitem__(e, k, v)
        else:
            for k, v in base.items():
                if isinstance(v, (bool, int)):
                    dict.__setitem__(e, k, v)
        if t == 0:
            for k, v in ang.items():
                if k not in base or not cell:
                    dict.__setitem__(e, k, v)
        yield e


def replay(res, before, after, opts):
    """(env, text) of a confirmed concrete difference or None"""
    for e in concretise(res, before, opts):
        try:
            d = numeric_compare(before, after, opts, e)
        except (Unsupported, Inconclusive, ZeroDivisionError, ValueError, OverflowError):
            continue
        if d:
            return {k: (v if isinstance(v, (bool, int)) else float(v)) for k, v in e.items()}, d
    return None
