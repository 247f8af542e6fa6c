"""HUGR JSON: types, program builder, parsed graph."""
import json
import math
import os

QB = {"t": "Q"}
USIZE = {"t": "I"}
BOOL = {"t": "Sum", "s": "Unit", "size": 2}
UNIT = {"t": "Sum", "s": "Unit", "size": 1}


def opq(ext, id, args=(), bound="C"):
    return {"t": "Opaque", "extension": ext, "id": id, "args": list(args), "bound": bound}


F64 = opq("arithmetic.float.types", "float64")
ROT = opq("tket.rotation", "rotation")
TBOOL = opq("tket.bool", "bool")
STR = opq("prelude", "string")
ERR = opq("prelude", "error")


def tyarg(t):
    return {"tya": "Type", "ty": t}


def nat(n):
    return {"tya": "BoundedNat", "n": n}


def strarg(s):
    return {"tya": "String", "arg": s}


def listarg(l):
    return {"tya": "List", "elems": list(l)}


def INT(logw):
    return opq("arithmetic.int.types", "int", [nat(logw)])


def FUT(t):
    return opq("tket.futures", "Future", [tyarg(t)], "A")


def linear(t):
    k = t["t"]
    if k == "Q":
        return True
    if k == "Opaque":
        return t["bound"] == "A"
    if k == "Sum":
        return t["s"] != "Unit" and any(linear(x) for r in t["rows"] for x in r)
    return False


def bnd(t):
    return "A" if linear(t) else "C"


def ARR(n, t):
    return opq("collections.array", "array", [nat(n), tyarg(t)], "A")


def BARR(n, t):
    return opq("collections.borrow_arr", "borrow_array", [nat(n), tyarg(t)], "A")


def VARR(n, t):
    return opq("collections.value_array", "value_array", [nat(n), tyarg(t)], bnd(t))


def SARR(t):
    return opq("collections.static_array", "static_array", [tyarg(t)], "C")


def LIST(t):
    return opq("collections.list", "List", [tyarg(t)], bnd(t))


def SUM(*rows):
    rows = [list(r) for r in rows]
    if all(not r for r in rows):
        return {"t": "Sum", "s": "Unit", "size": len(rows)}
    return {"t": "Sum", "s": "General", "rows": rows}


def TUP(*ts):
    return SUM(ts)


def OPT(t):
    return SUM([], [t])


def FN(ins, outs):
    return {"t": "G", "input": list(ins), "output": list(outs)}


def rows_of(t):
    return [[] for _ in range(t["size"])] if t["s"] == "Unit" else t["rows"]


def sig(ins, outs):
    return {"input": list(ins), "output": list(outs or [])}


# ------------------------------------------------------------------ op signatures
_SIGS = None


def sigs():
    global _SIGS
    if _SIGS is None:
        _SIGS = json.load(open(os.path.join(os.path.dirname(__file__), "..", "target", "sigs.json")))
    return _SIGS


def subst_t(t, args):
    k = t["t"]
    if k == "V":
        return args[t["i"]]["ty"]
    if k == "Opaque":
        return dict(t, args=[subst_a(a, args) for a in t["args"]],
                    bound=_bound(t, args))
    if k == "Sum" and t["s"] != "Unit":
        return SUM(*[subst_row(r, args) for r in t["rows"]])
    if k == "G":
        return {"t": "G", "input": subst_row(t["input"], args), "output": subst_row(t["output"], args)}
    return t


def _bound(t, args):
    if t["id"] in ("value_array", "List"):
        return bnd(subst_a(t["args"][-1], args)["ty"])
    return t["bound"]


def subst_row(r, args):
    out = []
    for t in r:
        if t["t"] == "R":
            out += [a["ty"] for a in args[t["i"]]["elems"]]
        else:
            out.append(subst_t(t, args))
    return out


def subst_a(a, args):
    k = a["tya"]
    if k == "Variable":
        return args[a["idx"]]
    if k == "Type":
        return {"tya": "Type", "ty": subst_t(a["ty"], args)}
    if k in ("List", "Tuple"):
        els = []
        for e in a["elems"]:
            els.append(subst_a(e, args))
        return {"tya": k, "elems": els}
    return a


# ------------------------------------------------------------------ constants
def ext_val(typ, c, v):
    return {"v": "Extension", "typ": typ, "value": {"c": c, "v": v}}


def c_f64(x):
    return ext_val(F64, "ConstF64", {"value": float(x)})


def c_rot(x):
    return ext_val(ROT, "ConstRotation", {"half_turns": float(x)})


def c_int(logw, v):
    return ext_val(INT(logw), "ConstInt", {"log_width": logw, "value": v})


def c_usize(v):
    return ext_val(USIZE, "ConstUsize", v)


def c_str(s):
    return ext_val(STR, "ConstString", s)


def c_err(sig, msg):
    return ext_val(ERR, "ConstError", {"signal": sig, "message": msg})


def c_tbool(b):
    return ext_val(TBOOL, "ConstBool", bool(b))


def c_bool(b):
    return {"v": "Sum", "tag": int(b), "vs": [], "typ": BOOL}


def c_sum(tag, vs, typ):
    return {"v": "Sum", "tag": tag, "vs": list(vs), "typ": typ}


def c_tuple(vs):
    return {"v": "Sum", "tag": 0, "vs": list(vs), "typ": TUP(*[val_type(v) for v in vs])}


def c_arr(vals, ty, kind="array"):
    typ = {"array": ARR, "value_array": VARR, "borrow_array": BARR}[kind](len(vals), ty)
    c = {"array": "ArrayValue", "value_array": "VArrayValue", "borrow_array": "BArrayValue"}[kind]
    return ext_val(typ, c, {"values": list(vals), "typ": ty})


def c_sarr(vals, ty, name="sa"):
    return ext_val(SARR(ty), "StaticArrayValue", {"value": {"values": list(vals), "typ": ty}, "name": name})


def val_type(v):
    return v["typ"]


# ------------------------------------------------------------------ builder
class W:
    __slots__ = ("n", "p", "ty")

    def __init__(self, n, p, ty):
        self.n, self.p, self.ty = n, p, ty


class Module:
    def __init__(self):
        self.nodes = [{"op": "Module", "parent": 0}]
        self.edges = []
        self.meta = {}
        self.entry = 0

    def add(self, parent, op, **kw):
        self.nodes.append(dict(kw, op=op, parent=parent))
        return len(self.nodes) - 1

    def edge(self, a, ap, b, bp):
        self.edges.append([[a, ap], [b, bp]])

    def func(self, name, ins, outs, vis="Private", params=()):
        n = self.add(0, "FuncDefn", name=name, signature={"params": list(params), "body": sig(ins, outs)}, visibility=vis)
        return Dfg(self, n, ins, outs, fn=(name, ins, outs))

    def main(self, ins, outs, name="main"):
        f = self.func(name, ins, outs, vis="Public")
        self.entry = f.n
        return f

    def decl(self, name, ins, outs):
        n = self.add(0, "FuncDecl", name=name, signature={"params": [], "body": sig(ins, outs)}, visibility="Public")
        d = Fn(n, ins, outs)
        return d

    def json(self):
        md = [self.meta.get(i) for i in range(len(self.nodes))]
        return {"version": "live", "nodes": self.nodes, "edges": self.edges, "metadata": md,
                "encoder": "verif", "entrypoint": self.entry}


class Fn:
    def __init__(self, n, ins, outs):
        self.n, self.fins, self.fouts = n, ins, outs


class Dfg:
    def __init__(self, m, n, ins, outs, fn=None):
        self.m, self.n, self.tins, self.touts = m, n, list(ins), outs
        self.i = m.add(n, "Input", types=list(ins))
        self.o = m.add(n, "Output", types=list(outs) if outs is not None else [])
        self.ins = [W(self.i, k, t) for k, t in enumerate(ins)]
        self.last = None
        if fn:
            self.fins, self.fouts = fn[1], fn[2]

    # order edges between consecutive nodes added with ordered=True
    def order(self, a, b):
        self.m.edge(a, None, b, None)

    def _fin(self, n, ins, outs, ordered=False):
        for k, w in enumerate(ins):
            self.m.edge(w.n, w.p, n, k)
        if ordered:
            self.order(self.last if self.last is not None else self.i, n)
            self.last = n
        return [W(n, k, t) for k, t in enumerate(outs)]

    def op(self, qname, ins=(), args=(), outs=None, ordered=False, oins=None):
        ext, name = qname.rsplit(".", 1)
        if outs is None:
            s = sigs()[ext]["ops"][name]
            if s is None:
                raise Exception(f"explicit outs needed for {qname}")
            outs = subst_row(s["body"]["output"], args)
        n = self.m.add(self.n, "Extension", extension=ext, name=name, args=list(args),
                       signature=sig([w.ty for w in ins], outs))
        return self._fin(n, ins, outs, ordered)

    def g(self, name, *ins, ordered=False):
        """tket.quantum op"""
        r = self.op("tket.quantum." + name, ins, ordered=ordered)
        return r[0] if len(r) == 1 else r

    def const(self, v, parent=None):
        c = self.m.add(self.n if parent is None else parent, "Const", v=v)
        return c

    def load(self, v, at_module=False):
        c = self.const(v, 0 if at_module else None) if isinstance(v, dict) else v
        ty = val_type(v) if isinstance(v, dict) else val_type(self.m.nodes[v]["v"])
        n = self.m.add(self.n, "LoadConstant", datatype=ty)
        self.m.edge(c, 0, n, 0)
        return W(n, 0, ty)

    def f64(self, x):
        return self.load(c_f64(x))

    def rot(self, x):
        return self.load(c_rot(x))

    def usize(self, x):
        return self.load(c_usize(x))

    def int(self, logw, x):
        return self.load(c_int(logw, x))

    def tag(self, tag, vals, typ):
        n = self.m.add(self.n, "Tag", tag=tag, variants=rows_of(typ))
        return self._fin(n, vals, [typ])[0]

    def bool(self, b):
        return self.tag(int(b), [], BOOL)

    def tup(self, vals):
        ts = [w.ty for w in vals]
        return self.op("prelude.MakeTuple", vals, [listarg(map(tyarg, ts))], [TUP(*ts)])[0]

    def untup(self, w):
        ts = rows_of(w.ty)[0]
        return self.op("prelude.UnpackTuple", [w], [listarg(map(tyarg, ts))], ts)

    def call(self, f, ins, ordered=False, targs=(), poly=None):
        s = sig(f.fins, f.fouts)
        n = self.m.add(self.n, "Call", func_sig=poly or {"params": [], "body": s}, type_args=list(targs), instantiation=s)
        r = self._fin(n, ins, f.fouts, ordered)
        self.m.edge(f.n, 0, n, len(f.fins))
        return r

    def loadfn(self, f):
        s = sig(f.fins, f.fouts)
        n = self.m.add(self.n, "LoadFunction", func_sig={"params": [], "body": s}, type_args=[], instantiation=s)
        self.m.edge(f.n, 0, n, 0)
        return W(n, 0, FN(f.fins, f.fouts))

    def calli(self, fw, ins, ordered=False):
        s = sig(fw.ty["input"], fw.ty["output"])
        n = self.m.add(self.n, "CallIndirect", signature=s)
        return self._fin(n, [fw] + list(ins), fw.ty["output"], ordered)

    def dfg(self, ins, outs, ordered=False):
        n = self.m.add(self.n, "DFG", signature=sig([w.ty for w in ins], outs))
        r = self._fin(n, ins, outs, ordered)
        d = Dfg(self.m, n, [w.ty for w in ins], outs)
        d.outs = r
        return d

    def cond(self, sumw, others, outs, ordered=False):
        """returns list of case builders, with .outs on the first; each case's ins = row ++ others"""
        rows = rows_of(sumw.ty)
        n = self.m.add(self.n, "Conditional", sum_rows=rows, other_inputs=[w.ty for w in others], outputs=list(outs))
        r = self._fin(n, [sumw] + list(others), outs, ordered)
        cs = []
        for row in rows:
            ti = list(row) + [w.ty for w in others]
            c = self.m.add(n, "Case", signature=sig(ti, outs))
            cs.append(Dfg(self.m, c, ti, outs))
        cs[0].outs = r
        for c in cs:
            c.outs = r
        return cs

    def loop(self, just_in, rest, just_out, ordered=False):
        """body outputs: [Sum(just_in | just_out)] ++ rest"""
        ji = [w.ty for w in just_in]
        rt = [w.ty for w in rest]
        n = self.m.add(self.n, "TailLoop", just_inputs=ji, just_outputs=list(just_out), rest=rt)
        r = self._fin(n, list(just_in) + list(rest), list(just_out) + rt, ordered)
        s = SUM(ji, just_out)
        d = Dfg(self.m, n, ji + rt, [s] + rt)
        d.outs = r
        d.sum = s
        return d

    def cfg(self, ins, outs, ordered=False):
        n = self.m.add(self.n, "CFG", signature=sig([w.ty for w in ins], outs))
        r = self._fin(n, ins, outs, ordered)
        return Cfg(self.m, n, [w.ty for w in ins], outs, r)

    def out(self, ws):
        if self.touts is None:
            self.touts = [w.ty for w in ws]
            self.m.nodes[self.o]["types"] = self.touts
        assert len(ws) == len(self.touts), (len(ws), self.touts)
        for k, w in enumerate(ws):
            assert w.ty == self.touts[k], (w.ty, self.touts[k])
            self.m.edge(w.n, w.p, self.o, k)
        if self.last is not None:
            self.order(self.last, self.o)

    # common classical helpers
    def error(self, code, msg):
        return self.load(c_err(code, msg))

    def panic(self, code, msg, ins, outs, ordered=False, op="panic"):
        e = self.error(code, msg)
        return self.op("prelude." + op, [e] + list(ins),
                       [listarg([tyarg(w.ty) for w in ins]), listarg(map(tyarg, outs))], outs, ordered)


class Cfg:
    """blocks: b = cfg.block(ins, rows, others); b.out(sum, others...); cfg.branch(b, k, target); cfg.exit"""

    def __init__(self, m, n, ins, outs, r):
        self.m, self.n, self.outs = m, n, r
        self.tins, self.touts = ins, list(outs)
        self.exit = None
        self.first = True

    def block(self, ins, rows, others):
        n = self.m.add(self.n, "DataflowBlock", inputs=list(ins), sum_rows=[list(r) for r in rows], other_outputs=list(others))
        if self.exit is None:
            self.exit = self.m.add(self.n, "ExitBlock", cfg_outputs=self.touts)
        d = Dfg(self.m, n, ins, [SUM(*rows)] + list(others))
        d.sum = SUM(*rows)
        return d

    def branch(self, b, k, target):
        t = target if isinstance(target, int) else target.n
        self.m.edge(b.n, k, t, 0)


# ------------------------------------------------------------------ parsed graph
class Graph:
    def __init__(self, j):
        self.j = j
        self.nodes = j["nodes"]
        n = len(self.nodes)
        self.entry = j.get("entrypoint") or 0
        self.children = [[] for _ in range(n)]
        for i, nd in enumerate(self.nodes):
            if i:
                self.children[nd["parent"]].append(i)
        self.inp = [dict() for _ in range(n)]  # port -> (src, port)
        self.succ = [dict() for _ in range(n)]  # for control flow: port -> node
        self.ord = [[] for _ in range(n)]  # order predecessors
        for (a, ap), (b, bp) in j["edges"]:
            if ap is None or bp is None:
                self.ord[b].append(a)
                continue
            if self.nodes[a]["op"] in ("DataflowBlock",):
                self.succ[a][ap] = b
                continue
            # some encoders number the order port explicitly
            self.inp[b][bp] = (a, ap)
        self._topo = {}
        self.rev = False  # of the operations that may be next, take the last one
        self.anc = {}

    def parent(self, n):
        return self.nodes[n]["parent"]

    def ancestor_in(self, n, par):
        while True:
            p = self.parent(n)
            if p == par:
                return n
            if p == n or n == 0:
                return None
            n = p

    def desc(self, n):
        out = []
        st = [n]
        while st:
            x = st.pop()
            for c in self.children[x]:
                out.append(c)
                st.append(c)
        return out

    def topo(self, par):
        if par in self._topo:
            return self._topo[par]
        ch = self.children[par]
        s = set(ch)
        deps = {c: set() for c in ch}
        for c in ch:
            for d in [c] + self.desc(c):
                for (a, _) in self.inp[d].values():
                    if a in s:
                        if a != c:
                            deps[c].add(a)
                    elif d != c or a not in s:
                        x = self.ancestor_in(a, par)
                        if x is not None and x != c and x in s and self.nodes[x]["op"] not in ("FuncDefn",):
                            deps[c].add(x)
            for a in self.ord[c]:
                if a in s:
                    deps[c].add(a)
        order = []
        import heapq
        ind = {c: len(d) for c, d in deps.items()}
        rev = {c: [] for c in ch}
        for c, d in deps.items():
            for a in d:
                rev[a].append(c)
        sgn = -1 if self.rev else 1
        h = [sgn * c for c in ch if ind[c] == 0]
        heapq.heapify(h)
        while h:
            c = sgn * heapq.heappop(h)
            order.append(c)
            for b in rev[c]:
                ind[b] -= 1
                if ind[b] == 0:
                    heapq.heappush(h, sgn * b)
        if len(order) != len(ch):
            raise Exception("cycle in dataflow region")
        # every node of a region is executed before the region returns
        order = [c for c in order if self.nodes[c]["op"] != "Output"] + [c for c in order if self.nodes[c]["op"] == "Output"]
        self._topo[par] = order
        return order

    def func(self, name):
        for c in self.children[0]:
            if self.nodes[c]["op"] == "FuncDefn" and self.nodes[c].get("name") == name:
                return c
        return None
