"""An independent reading of pytket circuits (their JSON form): expressions, gates, bits and conditions as pytket documents them.
`read` turns a circuit into a program over the same gate set, to be compared with what the real decoder produces or the real encoder was given."""
import re
from fractions import Fraction as F
from .hg import *

TOK = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][+-]?\d+)?)|([A-Za-z]\w*)|(\*\*|[-+*/(),]))")


def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ValueError(f"cannot read expression {s!r}")
        out.append(("n", m[1]) if m[1] else ("v", m[2]) if m[2] else ("o", m[3]))
        i = m.end()
    return out


FUN = {"max": 2, "min": 2, "abs": 1, "floor": 1, "ceil": 1, "round": 1}


def parse(s):
    """expression tree with the usual (sympy) rules: ** binds tightest and to the right, then unary minus, then * and /, then + and -;
    a number directly followed by a name, call or parenthesis is a product that binds tighter than any operator"""
    t = tokens(s)
    pos = [0]

    def peek():
        return t[pos[0]] if pos[0] < len(t) else None

    def eat(x=None):
        y = peek()
        if y is None or (x and y != ("o", x)):
            raise ValueError(f"cannot read expression {s!r}")
        pos[0] += 1
        return y

    def isop(*o):
        return peek() is not None and peek()[0] == "o" and peek()[1] in o

    def add():
        x = mul()
        while isop("+", "-"):
            o = eat()[1]
            x = (o, x, mul())
        return x

    def mul():
        x = una()
        while isop("*", "/"):
            o = eat()[1]
            x = (o, x, una())
        return x

    def una():
        if isop("-"):
            eat()
            return ("neg", una())
        return powr()

    def powr():
        x = imp()
        if isop("**"):
            eat()
            return ("**", x, una())
        return x

    def imp():
        if peek() and peek()[0] == "n":
            x = ("num", eat()[1])
            if peek() and (peek()[0] == "v" or isop("(")):
                return ("*", x, atom())
            return x
        return atom()

    def atom():
        if isop("("):
            eat()
            x = add()
            eat(")")
            return x
        k, v = eat()
        if k != "v":
            raise ValueError(f"cannot read expression {s!r}")
        if isop("("):
            eat()
            a = [add()]
            while isop(","):
                eat()
                if isop(")"):
                    break
                a.append(add())
            eat(")")
            return ("call", v, a)
        return ("var", v)

    x = add()
    if pos[0] != len(t):
        raise ValueError(f"cannot read expression {s!r}")
    return x


def variables(e, out):
    if e[0] == "var":
        if e[1] != "pi" and e[1] not in out:
            out.append(e[1])
    elif e[0] == "call":
        for x in e[2]:
            variables(x, out)
    elif e[0] != "num":
        for x in e[1:]:
            variables(x, out)


def load(f, e, env):
    """the expression as a float wire"""
    import math
    k = e[0]
    if k == "num":
        return f.f64(float(e[1]))
    if k == "var":
        return f.f64(math.pi) if e[1] == "pi" else env[e[1]]
    if k == "neg":
        return f.op("arithmetic.float.fneg", [load(f, e[1], env)])[0]
    if k == "call":
        if FUN.get(e[1]) != len(e[2]):
            raise ValueError(f"call of {e[1]}")
        return f.op("arithmetic.float.f" + e[1], [load(f, x, env) for x in e[2]])[0]
    return f.op("arithmetic.float." + {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv", "**": "fpow"}[k], [load(f, e[1], env), load(f, e[2], env)])[0]


# gates as sequences of (tket.quantum gate, qubits, (factor, parameter index or None) ...): angle = factor * param, or factor alone
SAME = {"H": 1, "X": 1, "Y": 1, "Z": 1, "S": 1, "Sdg": 1, "T": 1, "Tdg": 1, "V": 1, "Vdg": 1, "CX": 2, "CY": 2, "CZ": 2, "CCX": 3}
ROTS = {"Rx": 1, "Ry": 1, "Rz": 1, "CRz": 2}
ZZ = [("CX", [0, 1], None), ("Rz", [1], (1, 0)), ("CX", [0, 1], None)]
H2 = [("H", [0], None), ("H", [1], None)]
V2 = [("V", [0], None), ("V", [1], None)]
VD2 = [("Vdg", [0], None), ("Vdg", [1], None)]
TABLE = {
    "SX": [("V", [0], None)], "SXdg": [("Vdg", [0], None)], "noop": [],
    "SWAP": [("CX", [0, 1], None), ("CX", [1, 0], None), ("CX", [0, 1], None)],
    "ZZPhase": ZZ, "ZZMax": [("CX", [0, 1], None), ("Rz", [1], (F(1, 2), None)), ("CX", [0, 1], None)],
    "XXPhase": H2 + ZZ + H2, "YYPhase": V2 + ZZ + VD2,
    "PhasedX": [("Rz", [0], (-1, 1)), ("Rx", [0], (1, 0)), ("Rz", [0], (1, 1))],
    "TK1": [("Rz", [0], (1, 2)), ("Rx", [0], (1, 1)), ("Rz", [0], (1, 0))],
    "U1": [("Rz", [0], (1, 0))],
    "CRx": [("H", [1], None), ("CRz", [0, 1], (1, 0)), ("H", [1], None)],
    "CSWAP": [("CX", [2, 1], None), ("Toffoli", [0, 1, 2], None), ("CX", [2, 1], None)],
    "BRIDGE": [("CX", [0, 2], None)],
}
for g, n in SAME.items():
    TABLE[g] = [("Toffoli" if g == "CCX" else g, list(range(n)), None)]
for g, n in ROTS.items():
    TABLE[g] = [(g, list(range(n)), (1, 0))]
NQ = {g: 1 + max([max(q) for _, q, _ in s], default=0) for g, s in TABLE.items()}
NP = {g: 1 + max([p[1] for _, _, p in s if p and p[1] is not None], default=-1) for g, s in TABLE.items()}


def nbits_expr(ex, bits):
    """list of solver/wire-agnostic evaluation: ('bit', i) / ('and', ..)"""
    def go(o):
        a = [arg(x) for x in o["args"]]
        return (o["op"], a)

    def arg(x):
        if x["type"] == "expr":
            return go(x["input"])
        t = x["input"]
        if t["type"] == "int":
            return ("int", t["term"])
        v = t["term"]
        if v["type"] != "bit":
            raise ValueError("register variable")
        pos = dict(map(tuple, ex["bit_posn"]))
        return ("bit", bits[pos[v["var"]["index"]]])
    return go(ex["expr"])


def bit_eval(e, lift, logic):
    """evaluate a tree from nbits_expr; lift(bool) makes a constant, logic(name, args) a gate"""
    if e[0] == "bit":
        return e[1]
    if e[0] == "int":
        return lift(bool(e[1]))
    a = [bit_eval(x, lift, logic) for x in e[1]]
    op = e[0]
    if op == "BitZero":
        return lift(False)
    if op == "BitOne":
        return lift(True)
    if op == "BitNot":
        return logic("Not", a)
    if op == "BitNeq":
        op = "BitXor"
    r = a[0]
    for x in a[1:]:
        r = logic({"BitAnd": "And", "BitOr": "Or", "BitXor": "Xor", "BitEq": "Eq"}[op], [r, x])
    return r


class Unreadable(Exception):
    pass


def regname(a):
    return (a[0], tuple(a[1]))


def params_of(op):
    return list(op.get("params") or [])


def illformed(j):
    """why a serial circuit is not one that pytket accepts, or None"""
    def op(o, q, b):
        ty = o["type"]
        if ty == "Barrier":
            return None
        if ty == "Conditional":
            k = o["conditional"]["width"]
            return f"a condition on {k} bits with {b} bits" if b < k else op(o["conditional"]["op"], q, b - k)
        if o.get("signature") is not None and o["signature"] != ["Q"] * q + ["B"] * b and sorted(o["signature"]) != sorted(["Q"] * q + ["B"] * b):
            return f"{ty} with signature {o['signature']} on {q} qubits and {b} bits"
        if ty == "ClExpr":
            ex = o["expr"]
            pos = [y for x in ex["bit_posn"] for y in x[1:]] + [y for x in ex["reg_posn"] for y in x[1]] + list(ex["output_posn"])
            if q or any(x >= b for x in pos):
                return f"an expression with positions {sorted(set(pos))} on {q} qubits and {b} bits"
            if ex["expr"]["op"].startswith("Bit") and len(ex["output_posn"]) != 1:
                return f"a bit expression with outputs {ex['output_posn']}"
        if ty in TABLE:
            if len(o.get("params") or []) != NP[ty]:
                return f"{ty} with parameters {o.get('params')}"
            n = 1 + max([x for _, pl, _ in TABLE[ty] for x in pl] or [0])
            if (q, b) != (n, 0):
                return f"{ty} on {q} qubits and {b} bits"
        if ty == "Measure" and (q, b) != (1, 1) or ty == "Reset" and (q, b) != (1, 0):
            return f"{ty} on {q} qubits and {b} bits"
        return None

    qs, bs = [regname(x) for x in j["qubits"]], [regname(x) for x in j["bits"]]
    if len(set(qs + bs)) != len(qs + bs):
        return "two units with the same name"
    perm = [(regname(x), regname(y)) for x, y in j["implicit_permutation"]]
    if sorted(x for x, _ in perm) != sorted(qs) or sorted(y for _, y in perm) != sorted(qs):
        return "the implicit permutation is not one of the qubits"
    for c in j["commands"]:
        a = [regname(x) for x in c["args"]]
        if any(x not in qs and x not in bs for x in a):
            return f"a command on unknown units {a}"
        q = [x for x in a if x in qs]
        if len(set(q)) != len(q):
            return f"a command with a qubit twice: {a}"
        why = op(c["op"], len(q), len(a) - len(q))
        if why:
            return why
    return None


def param_names(j):
    out = []
    for c in j["commands"]:
        for s in params_of(c["op"]):
            variables(parse(s), out)
    return out


def read(j, nin=None, params=None, bool_ty=None, outs=None, layout=None):
    """program json and parameter names.  nin = (qubits, bits) that are inputs, the rest starts as |0> / false;
    outs = (number of output qubits, list of output bit registers);
    layout = (inputs, outputs): the kinds of the values, among them parameters (rotations or floats), in the wanted order; params are the names given to the first of the parameters"""
    names = params if params is not None else param_names(j)
    qs, bs = [regname(q) for q in j["qubits"]], [regname(b) for b in j["bits"]]
    nq, nb = nin if nin else (len(qs), len(bs))
    ob = [regname(b) for b in outs[1]] if outs else bs
    oq = outs[0] if outs else len(qs)
    m = Module()
    if layout:
        free = [x for x in param_names(j) if x not in names]
        names = list(names) + free
        kt = {"q": QB, "b": BOOL, "t": TBOOL, "r": ROT, "f": F64}
        lay = layout[0] + "r" * max(0, len(names) - sum(c in "rf" for c in layout[0]))
        f = m.main([kt[c] for c in lay], [kt[c] for c in layout[1]])
        by = {"q": [], "b": [], "r": []}
        for c, w in zip(lay, f.ins):
            if c == "f":
                w = f.op("tket.rotation.from_halfturns_unchecked", [w])[0]
            if c == "t":
                w = f.op("tket.bool.read", [w])[0]
            by[{"f": "r", "t": "b"}.get(c, c)].append(w)
        nq, nb, oq = len(by["q"]), len(by["b"]), layout[1].count("q")
        ins = by["q"] + by["b"] + by["r"]
    else:
        f = m.main([QB] * nq + [BOOL] * nb + [ROT] * len(names), [QB] * oq + [BOOL] * len(ob))
        ins = f.ins
    cur = dict(zip(qs, ins[:nq]))
    for q in qs[nq:]:
        cur[q] = f.op("tket.quantum.QAlloc", [])[0]
    cur.update(zip(bs, ins[nq:nq + nb]))
    for b in bs[nb:]:
        cur[b] = f.bool(False)
    env = {n: f.op("tket.rotation.to_halfturns", [w])[0] for n, w in zip(names, ins[nq + nb:])}

    def exp(s):
        return load(f, parse(s), env)

    def gate(g, ty, q, ps):
        """q: list of wires; ps: float wires"""
        for name, pl, a in TABLE[ty]:
            ins = [q[i] for i in pl]
            if a:
                w = g.f64(float(a[0])) if a[1] is None else ps[a[1]] if a[0] == 1 else g.op("arithmetic.float.fneg", [ps[a[1]]])[0]
                ins.append(g.op("tket.rotation.from_halfturns_unchecked", [w])[0])
            for i, w in zip(pl, g.op("tket.quantum." + name, ins)):
                q[i] = w
        return q

    def classical(g, op, b):
        """b: list of bit wires; returns the new ones"""
        ty = op["type"]
        if ty == "SetBits":
            return [g.bool(v) for v in op["classical"]["values"]]
        if ty == "CopyBits":
            n = op["classical"]["n_i"]
            return b[:n] + b[:n]
        ex = op["expr"]
        if ex["reg_posn"] or len(ex["output_posn"]) != 1:
            raise Unreadable("register expression")
        r = bit_eval(nbits_expr(ex, b), g.bool, lambda n, a: g.op("logic." + n, a)[0])
        b = list(b)
        b[ex["output_posn"][0]] = r
        return b

    def run(g, op, q, b, depth=0):
        ty = op["type"]
        if ty == "Barrier":
            if op.get("data") and "typ" in op["data"]:
                raise Unreadable("opaque barrier")
            return q, b
        if ty == "Measure":
            w = g.op("tket.quantum.Measure", [q[0]])
            return [w[0]], [w[1]]
        if ty == "Reset":
            return g.op("tket.quantum.Reset", [q[0]]), b
        if ty in ("SetBits", "CopyBits", "ClExpr"):
            return q, classical(g, op, b)
        if ty == "Conditional":
            c = op["conditional"]
            k = c["width"]
            r = g.bool(True)
            for i in range(k):
                x = b[i] if c["value"] >> i & 1 else g.op("logic.Not", [b[i]])[0]
                r = g.op("logic.And", [r, x])[0]
            rest = b[k:]
            no, yes = g.cond(r, list(q) + list(rest), [QB] * len(q) + [BOOL] * len(rest))
            no.out(no.ins)
            if any(params_of(c["op"])):
                raise Unreadable("conditional with parameters")
            a, d = run(yes, c["op"], list(yes.ins[:len(q)]), list(yes.ins[len(q):]))
            yes.out(list(a) + list(d))
            o = no.outs
            return list(o[:len(q)]), b[:k] + list(o[len(q):])
        if ty == "CircBox":
            return box(g, op["box"]["circuit"], q, b)
        if ty not in TABLE:
            raise Unreadable(ty)
        return gate(g, ty, list(q), [exp(s) for s in params_of(op)] if g is f else []), b

    def box(g, jj, q, b):
        qn, bn = [regname(x) for x in jj["qubits"]], [regname(x) for x in jj["bits"]]
        c = dict(zip(qn, q))
        c.update(zip(bn, b))
        for x in jj["commands"]:
            step(g, x, c, set(qn))
        perm = {regname(o): regname(i) for i, o in jj["implicit_permutation"]}
        return [c[perm.get(x, x)] for x in qn], [c[x] for x in bn]

    def step(g, c, cur, quni):
        a = [regname(x) for x in c["args"]]
        aq, ab = [x for x in a if x in quni], [x for x in a if x not in quni]
        q, b = run(g, c["op"], [cur[x] for x in aq], [cur[x] for x in ab])
        cur.update(zip(aq, q))
        cur.update(zip(ab, b))

    for c in j["commands"]:
        step(f, c, cur, set(qs))
    perm = {regname(o): regname(i) for i, o in j["implicit_permutation"]}
    o = [cur[perm.get(x, x)] for x in qs]
    for w in o[oq:]:
        f.op("tket.quantum.QFree", [w])
    if layout:
        q, b = iter(o[:oq]), iter([cur[b] for b in bs])
        f.out([next(q) if c == "q" else f.op("tket.bool.make_opaque", [next(b)])[0] if c == "t" else next(b) for c in layout[1]])
    else:
        f.out(o[:oq] + [cur[b] for b in ob])
    return m.json(), names


# ------------------------------------------------------------------ execution of opaque pytket operations found in a program
def execute(I, op, p, a):
    """a: qubits, bits, parameters of an opaque operation"""
    from . import sym as S
    from .interp import Q, Unsupported
    q = [x for x in a if isinstance(x, Q)]
    ps = [x for x in a if isinstance(x, S.Poly)]
    b = [x for x in a if not isinstance(x, (Q, S.Poly))]
    ty = op["type"]
    if ty == "Barrier":
        return [(p, q + b)]
    if ty == "SetBits":
        return [(p, q + [bool(v) for v in op["classical"]["values"]])]
    if ty == "CopyBits":
        n = op["classical"]["n_i"]
        return [(p, b[:n] + b[:n])]
    if ty == "ClExpr":
        ex = op["expr"]
        L = {"And": S.band, "Or": S.bor, "Xor": S.bxor, "Eq": lambda x, y: S.bnot(S.bxor(x, y)), "Not": S.bnot}
        b = list(b)
        b[ex["output_posn"][0]] = bit_eval(nbits_expr(ex, b), lambda v: v, lambda n, x: L[n](*x))
        return [(p, b)]
    if ty == "Measure":
        return [(p2, [q[0], v]) for p2, v in I.measure(p, q[0], True)]
    if ty == "Reset":
        return [(I.reset(p, q[0]), q)]
    if ty == "Conditional":
        c = op["conditional"]
        k = c["width"]
        r = True
        for i in range(k):
            r = S.band(r, b[i] if c["value"] >> i & 1 else S.bnot(b[i]))
        out = []
        for p2, v in I.branch(p, r):
            if v:
                out += [(p3, q2[:len(q)] + b[:k] + q2[len(q):]) for p3, q2 in execute(I, c["op"], p2, q + b[k:])]
            else:
                out.append((p2, q + b))
        return out
    if ty not in TABLE:
        raise Unsupported(f"opaque pytket op {ty}")
    for name, pl, x in TABLE[ty]:
        par = [] if not x else [(S.num(x[0]) if x[1] is None else ps[x[1]].scale(x[0]))]
        p = p.w(q=p.q.gate(name, [q[i].id for i in pl], par) if par else p.q.gate(name, [q[i].id for i in pl]))
    return [(p, q + b)]
