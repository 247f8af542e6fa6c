"""Symbolic scalars: real polynomials (floats / rotations), booleans and bit-vectors.

Floats are modelled as exact reals: polynomials with rational coefficients over named symbols,
with PI and 1/PI as symbols of their own.  Operations that leave that ring become named
("uninterpreted") symbols keyed by their canonical arguments."""
import math
from fractions import Fraction as F
import z3


class Unsupported(Exception):
    """The program leaves the fragment the symbolic executor covers (never a verdict)."""


UNI = {}  # name of an uninterpreted symbol -> (fn, args)


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}
        self._h = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            r[m] = r.get(m, 0) + c
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mmul(m, n)
                r[k] = r.get(k, 0) + c * d
        return Poly(r)

    def scale(self, q):
        q = F(q)
        return Poly({m: c * q for m, c in self.t.items()})

    def const(self):
        """the Fraction if constant, else None"""
        if not self.t:
            return F(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_num(self):
        """numeric constant, possibly with powers of PI"""
        return all(all(s == "PI" for s, _ in m) for m in self.t)

    def value(self, env=None):
        env = env or {}
        tot = 0.0
        for m, c in self.t.items():
            v = float(c)
            for s, p in m:
                v *= symval(s, env) ** p
            tot += v
        return tot

    def syms(self):
        return {s for m in self.t for s, _ in m}

    def __repr__(self):
        return " + ".join(
            f"{c}" + "".join(f"*{s}" + (f"^{p}" if p != 1 else "") for s, p in m)
            for m, c in sorted(self.t.items())
        ) or "0"


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for s, p in n:
        d[s] = d.get(s, 0) + p
    return tuple(sorted((s, p) for s, p in d.items() if p))


def symval(s, env):
    if s == "PI":
        return math.pi
    if s in env:
        return env[s]
    if s in UNI:
        fn, args = UNI[s]
        return UNI_EVAL[fn](*[a.value(env) for a in args])
    raise Unsupported(f"no value for symbol {s}")


def _pow(a, b):
    try:
        return a**b if not isinstance(a**b, complex) else float("nan")
    except Exception:
        return float("nan")


UNI_EVAL = {
    "fabs": abs,
    "fmax": max,
    "fmin": min,
    "ffloor": math.floor,
    "fceil": math.ceil,
    "fround": lambda x: float(round(x)),
    "fpow": _pow,
    "inv": lambda x: 1.0 / x if x else float("inf"),
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "sqrt": lambda x: math.sqrt(x) if x >= 0 else float("nan"),
    "exp": math.exp, "log": lambda x: math.log(x) if x > 0 else float("nan"),
    "asin": lambda x: math.asin(x) if -1 <= x <= 1 else float("nan"),
    "acos": lambda x: math.acos(x) if -1 <= x <= 1 else float("nan"),
    "atan": math.atan, "sign": lambda x: (x > 0) - (x < 0), "abs": abs,
    "atan2": math.atan2, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
    "mod": lambda a, b: math.fmod(a, b),
}


def sym(name, p=1):
    return Poly({((name, p),): F(1)})


def num(x):
    """exact rational"""
    return Poly({(): F(x)})


ZERO = Poly({})
PI = sym("PI")
INVPI = sym("PI", -1)
_pi_cache = {}


def from_float(v):
    """A float constant: recognised as q*pi^{1,-1} or a short decimal when that is the nearest double."""
    v = float(v)
    if v in _pi_cache:
        return _pi_cache[v]
    if math.isnan(v) or math.isinf(v):
        r = sym(f"<{v}>")
    elif v == 0:
        r = ZERO
    else:
        r = None
        for base, p in ((math.pi, PI), (1 / math.pi, INVPI)):
            q = F(v / base).limit_denominator(256)
            if q and abs(float(q) * base - v) <= 4e-16 * abs(v) :
                r = p.scale(q)
                break
        if r is None:
            q = F(v).limit_denominator(10**6)
            r = num(q if float(q) == v else F(v))
    _pi_cache[v] = r
    return r


def uni(fn, *args):
    if all(a.const() is not None or a.is_num() for a in args):
        return from_float(UNI_EVAL[fn](*[a.value() for a in args]))
    name = f"{fn}({','.join(map(repr, args))})"
    UNI[name] = (fn, args)
    return sym(name)


def inv(p):
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        return Poly({tuple((s, -k) for s, k in m): 1 / c})
    if not p.t:
        return sym("<div0>")
    return uni("inv", p)


def fdiv(a, b):
    return a * inv(b)


def to_z3r(p):
    tot = z3.RealVal(0)
    for m, c in p.t.items():
        t = z3.RealVal(str(c))
        for s, k in m:
            v = z3.Real(s)
            for _ in range(abs(k)):
                t = t * v if k > 0 else t / v
        tot = tot + t
    return z3.simplify(tot)


# ---------------------------------------------------------------- booleans
def zb(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def _s(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def bnot(a):
    return (not a) if isinstance(a, bool) else _s(z3.Not(a))


def band(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return _s(z3.And(a, b))


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    if isinstance(a, bool):
        return bnot(b) if a else b
    if isinstance(b, bool):
        return bnot(a) if b else a
    return _s(z3.Xor(a, b))


def bite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return _s(z3.If(c, zb(a), zb(b)))


# ---------------------------------------------------------------- bit-vectors
class BV:
    """w-bit integer: a python int (reduced mod 2^w) or a z3 term."""
    __slots__ = ("w", "v")

    def __init__(self, w, v):
        self.w = w
        self.v = v & ((1 << w) - 1) if isinstance(v, int) else v

    def z(self):
        return z3.BitVecVal(self.v, self.w) if isinstance(self.v, int) else self.v

    def conc(self):
        return isinstance(self.v, int)

    def signed(self):
        return self.v - (1 << self.w) if self.v >> (self.w - 1) else self.v

    def __repr__(self):
        return f"i{self.w}:{self.v}"

    def __eq__(self, o):
        return isinstance(o, BV) and self.w == o.w and (
            self.v == o.v if self.conc() and o.conc() else (not self.conc() and not o.conc() and self.v.eq(o.v)))

    def __hash__(self):
        return hash((self.w, self.v if self.conc() else self.v.hash()))


def bvs(w, e):
    e = z3.simplify(e)
    return BV(w, e.as_long() if z3.is_bv_value(e) else e)


def zbool(e):
    return _s(e)
