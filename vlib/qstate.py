"""Quantum states.  SymState: exact symbolic; NumState: independent complex-float simulator (replay)."""
import cmath
import math
from fractions import Fraction as F
import numpy as np
from .sym import Poly, Unsupported, num, sym, INVPI, ZERO

# e^{i*pi*n/D}; D divisible by the denominators we allow
D = (1 << 64) * 81 * 25 * 7
_atoms = {}
_atom_list = []


def atom(m):
    i = _atoms.get(m)
    if i is None:
        i = len(_atom_list)
        _atoms[m] = i
        _atom_list.append(m)
    return i


def atom_mono(i):
    return _atom_list[i]


def expo(p):
    """Poly (in half-turns) -> exponent (const, ((atom,n),..)) meaning e^{i*pi*p}"""
    c = 0
    r = []
    for m, q in p.t.items():
        n = q * D
        if n.denominator != 1:
            raise Unsupported(f"angle denominator {q}")
        n = n.numerator
        if m == ():
            c = n
        else:
            r.append((atom(m), n))
    r.sort()
    return (c, tuple(r))


def emul(a, b):
    if not a[1]:
        return (a[0] + b[0], b[1])
    if not b[1]:
        return (a[0] + b[0], a[1])
    d = dict(a[1])
    for k, v in b[1]:
        s = d.get(k, 0) + v
        if s:
            d[k] = s
        else:
            del d[k]
    return (a[0] + b[0], tuple(sorted(d.items())))


def acc(r, e, c):
    """r += c*e^{i pi e}, canonical constant part in [0,D)"""
    n = e[0] % (2 * D)
    if n >= D:
        n -= D
        c = -c
    k = (n, e[1])
    s = r.get(k, 0) + c
    if s:
        r[k] = s
    else:
        r.pop(k, None)


def amul(a, b):
    r = {}
    for e, c in a.items():
        for f, d in b.items():
            acc(r, emul(e, f), c * d)
    return r


def aadd(a, b, k=1):
    r = dict(a)
    for e, c in b.items():
        acc(r, e, c * k)
    return r


def aconj(a):
    r = {}
    for e, c in a.items():
        acc(r, (-e[0], tuple((k, -v) for k, v in e[1])), c)
    return r


ONE = {(0, ()): 1}
I_ = {(D // 2, ()): 1}
NEG = {(0, ()): -1}
SQRT2 = {(D // 4, ()): 1, (3 * D // 4, ()): -1}


def E(p):
    r = {}
    acc(r, expo(p), 1)
    return r


def aval(a, env):
    """numeric value"""
    t = 0
    for e, c in a.items():
        ph = e[0] / D
        for k, n in e[1]:
            v = 1.0
            from .sym import symval
            for s, p in _atom_list[k]:
                v *= symval(s, env) ** p
            ph += v * (n / D)
        t += c * cmath.exp(1j * math.pi * ph)
    return t


def neg(a):
    return {k: -v for k, v in a.items()}


Z_ = {}
H2 = F(1, 2)


def gate_matrix(name, angs):
    """(matrix of Amp, scale) where value = M * 2^(-scale/2).  Reference semantics of the gate set:
    angles in half-turns (Poly). Qubit 0 is the most significant index bit."""
    g = name
    if g == "H":
        return [[ONE, ONE], [ONE, NEG]], 1
    if g == "X":
        return [[Z_, ONE], [ONE, Z_]], 0
    if g == "Y":
        return [[Z_, neg(I_)], [I_, Z_]], 0
    if g == "Z":
        return [[ONE, Z_], [Z_, NEG]], 0
    if g in ("S", "Sdg", "T", "Tdg"):
        q = {"S": F(1, 2), "Sdg": F(-1, 2), "T": F(1, 4), "Tdg": F(-1, 4)}[g]
        return [[ONE, Z_], [Z_, E(num(q))]], 0
    if g == "V":
        return [[ONE, neg(I_)], [neg(I_), ONE]], 1
    if g == "Vdg":
        return [[ONE, I_], [I_, ONE]], 1
    if g == "SX":
        return [[E(num(F(1, 4))), E(num(F(-1, 4)))], [E(num(F(-1, 4))), E(num(F(1, 4)))]], 1
    if g == "SXdg":
        return [[E(num(F(-1, 4))), E(num(F(1, 4)))], [E(num(F(1, 4))), E(num(F(-1, 4)))]], 1
    if g == "U1":
        return [[ONE, Z_], [Z_, E(angs[0])]], 0
    if g == "Rz":
        a = angs[0].scale(H2)
        return [[E(-a), Z_], [Z_, E(a)]], 0
    if g == "Rx":
        a = angs[0].scale(H2)
        c = aadd(E(a), E(-a))
        s = neg(aadd(E(a), E(-a), -1))  # -i sin = -(e-e*)/2
        return [[c, s], [s, c]], 2
    if g == "Ry":
        a = angs[0].scale(H2)
        c = aadd(E(a), E(-a))
        s = amul(neg(I_), aadd(E(a), E(-a), -1))  # sin*2
        return [[c, neg(s)], [s, c]], 2
    if g == "PhasedX":  # Rz(b) Rx(a) Rz(-b)
        M, k = gate_matrix("Rx", angs[:1])
        return [[M[0][0], amul(M[0][1], E(-angs[1]))], [amul(M[1][0], E(angs[1])), M[1][1]]], k
    if g == "TK1":
        m = matmul(gate_matrix("Rz", [angs[0]]), gate_matrix("Rx", [angs[1]]))
        return matmul(m, gate_matrix("Rz", [angs[2]]))
    if g == "U3":  # theta, phi, lam ; pytket: e^{i(phi+lam)/2} Rz(phi) Ry(theta) Rz(lam)
        m = matmul(gate_matrix("Rz", [angs[1]]), gate_matrix("Ry", [angs[0]]))
        m, k = matmul(m, gate_matrix("Rz", [angs[2]]))
        ph = E((angs[1] + angs[2]).scale(H2))
        return [[amul(ph, x) for x in r] for r in m], k
    if g in ("CX", "CY", "CZ", "CH", "CRz", "CRx", "CRy", "CU1", "CV", "CVdg", "CS", "CSdg", "CSX", "CSXdg", "CU3"):
        M, k = gate_matrix(g[1:], angs)
        one = ONE
        for _ in range(k % 2):
            one = amul(one, SQRT2)
        one = {e: c * 2 ** (k // 2) for e, c in one.items()}
        return [[one, Z_, Z_, Z_], [Z_, one, Z_, Z_], [Z_, Z_, M[0][0], M[0][1]], [Z_, Z_, M[1][0], M[1][1]]], k
    if g in ("ZZPhase",):
        a = angs[0].scale(H2)
        return diag([E(-a), E(a), E(a), E(-a)]), 0
    if g in ("XXPhase", "YYPhase"):
        a = angs[0].scale(H2)
        c = aadd(E(a), E(-a))
        s = neg(aadd(E(a), E(-a), -1))
        t = neg(s) if g == "YYPhase" else s
        return [[c, Z_, Z_, t], [Z_, c, s, Z_], [Z_, s, c, Z_], [t, Z_, Z_, c]], 2
    if g == "ZZMax":
        return gate_matrix("ZZPhase", [num(H2)])
    if g == "ECR":  # pytket: 1/sqrt2 [[0,0,1,i],[0,0,i,1],[1,-i,0,0],[-i,1,0,0]]
        return [[Z_, Z_, ONE, I_], [Z_, Z_, I_, ONE], [ONE, neg(I_), Z_, Z_], [neg(I_), ONE, Z_, Z_]], 1
    if g == "SWAP":
        return [[ONE, Z_, Z_, Z_], [Z_, Z_, ONE, Z_], [Z_, ONE, Z_, Z_], [Z_, Z_, Z_, ONE]], 0
    if g in ("CCX", "Toffoli", "CSWAP"):
        p = list(range(8))
        if g == "CSWAP":
            p[5], p[6] = 6, 5
        else:
            p[6], p[7] = 7, 6
        return [[ONE if p[r] == c else Z_ for c in range(8)] for r in range(8)], 0
    if g == "noop":
        return [[ONE, Z_], [Z_, ONE]], 0
    raise Unsupported(f"gate {g}")


def diag(l):
    return [[l[i] if i == j else Z_ for j in range(len(l))] for i in range(len(l))]


def matmul(a, b):
    A, k = a
    B, l = b
    n = len(A)
    R = []
    for i in range(n):
        row = []
        for j in range(n):
            s = {}
            for m in range(n):
                if A[i][m] and B[m][j]:
                    s = aadd(s, amul(A[i][m], B[m][j]))
            row.append(s)
        R.append(row)
    return R, k + l


class SymState:
    """Sparse vector; amps: basis(int bitmask over slots) -> Amp; value = amp*2^(-scale/2).
    Immutable. slots: qubit id -> slot. env: slots traced out."""
    __slots__ = ("amps", "scale", "slots", "env", "nslot", "nid")
    numeric = False

    def __init__(self, amps=None, scale=0, slots=None, env=(), nslot=0, nid=0):
        self.amps = {0: ONE} if amps is None else amps
        self.scale = scale
        self.slots = slots or {}
        self.env = env
        self.nslot = nslot
        self.nid = nid

    def _w(self, **k):
        d = dict(amps=self.amps, scale=self.scale, slots=self.slots, env=self.env, nslot=self.nslot, nid=self.nid)
        d.update(k)
        return SymState(**d)

    def alloc(self, qid=None):
        qid = self.nid if qid is None else qid
        s = dict(self.slots)
        s[qid] = self.nslot
        return self._w(slots=s, nslot=self.nslot + 1, nid=max(self.nid, qid) + 1), qid

    def bell(self):
        """a fresh qubit maximally entangled with a fresh reference (unnormalised)"""
        st, q = self.alloc()
        st, r = st.alloc()
        b = (1 << st.slots[q]) | (1 << st.slots[r])
        amps = {}
        for k, a in st.amps.items():
            amps[k] = a
            amps[k | b] = a
        return st._w(amps=amps), q, r

    def matrix(self, M, k, qs, nonzero=None):
        sl = [self.slots[q] for q in qs]
        if len(set(sl)) != len(sl):
            raise Unsupported("gate on repeated qubit")
        n = len(sl)
        mask = 0
        for s in sl:
            mask |= 1 << s
        bits = []
        for i in range(1 << n):
            b = 0
            for j, s in enumerate(sl):
                if (i >> (n - 1 - j)) & 1:
                    b |= 1 << s
            bits.append(b)
        idx = {b: i for i, b in enumerate(bits)}
        out = {}
        cols = [[(bits[r], M[r][c]) for r in range(1 << n) if M[r][c]] for c in range(1 << n)]
        for key, a in self.amps.items():
            base = key & ~mask
            for b, m in cols[idx[key & mask]]:
                k2 = base | b
                p = a if m is ONE else amul(a, m)
                o = out.get(k2)
                out[k2] = p if o is None else aadd(o, p)
        return self._w(amps={b: a for b, a in out.items() if a}, scale=self.scale + k)

    def gate(self, name, qs, angs=()):
        M, k = gate_matrix(name, list(angs))
        return self.matrix(M, k, qs)

    def phase(self, p):
        e = E(p)
        return self._w(amps={b: amul(a, e) for b, a in self.amps.items()})

    def project(self, q, v):
        """unnormalised projection; None if the branch is impossible"""
        s = 1 << self.slots[q]
        amps = {b: a for b, a in self.amps.items() if bool(b & s) == bool(v)}
        return self._w(amps=amps) if amps else None

    def drop(self, q):
        """trace the qubit out"""
        s = self.slots[q]
        sl = dict(self.slots)
        del sl[q]
        m = 1 << s
        vals = {bool(b & m) for b in self.amps}
        if len(vals) == 1:
            if vals == {True}:
                return self._w(amps={b & ~m: a for b, a in self.amps.items()}, slots=sl)
            return self._w(slots=sl)
        return self._w(slots=sl, env=self.env + (s,))

    def definite(self, q):
        m = 1 << self.slots[q]
        vals = {bool(b & m) for b in self.amps}
        return vals.pop() if len(vals) == 1 else None

    def vectors(self, order):
        """env basis -> {index over `order`: Amp}"""
        sl = [self.slots[q] for q in order]
        rest = [s for q, s in self.slots.items() if q not in set(order)] + list(self.env)
        out = {}
        for b, a in self.amps.items():
            e = tuple((b >> s) & 1 for s in rest)
            i = 0
            for s in sl:
                i = i * 2 + ((b >> s) & 1)
            out.setdefault(e, {})[i] = a
        return list(out.values())

    def norm2(self):
        r = {}
        for a in self.amps.values():
            r = aadd(r, amul(a, aconj(a)))
        return r


class NumState:
    """Dense complex simulator with its own gate definitions, used only to replay counterexamples."""
    numeric = True

    def __init__(self, vec=None, order=(), env=(), nid=0):
        self.vec = np.ones((), dtype=complex) if vec is None else vec  # tensor, axis i <-> order[i]
        self.order = tuple(order)
        self.env = tuple(env)
        self.nid = nid

    def alloc(self, qid=None):
        qid = self.nid if qid is None else qid
        v = np.stack([self.vec, np.zeros_like(self.vec)], axis=-1)
        return NumState(v, self.order + (qid,), self.env, max(self.nid, qid) + 1), qid

    def bell(self):
        st, q = self.alloc()
        st, r = st.alloc()
        v = st.vec.copy()
        v[..., 1, 1] = v[..., 0, 0]
        return NumState(v, st.order, st.env, st.nid), q, r

    @property
    def slots(self):
        return {q: i for i, q in enumerate(self.order) if not (isinstance(q, tuple))}

    def matrix(self, M, qs):
        ax = [self.order.index(q) for q in qs]
        n = len(ax)
        T = np.asarray(M, dtype=complex).reshape((2,) * (2 * n))
        v = np.tensordot(T, self.vec, axes=(list(range(n, 2 * n)), ax))
        v = np.moveaxis(v, list(range(n)), ax)
        return NumState(v, self.order, self.env, self.nid)

    def gate(self, name, qs, angs=()):
        return self.matrix(num_gate(name, [a.value() for a in angs]), qs)

    def phase(self, p):
        return NumState(self.vec * cmath.exp(1j * math.pi * p.value()), self.order, self.env, self.nid)

    def project(self, q, v):
        i = self.order.index(q)
        w = self.vec.copy()
        sl = [slice(None)] * w.ndim
        sl[i] = 1 - int(v)
        w[tuple(sl)] = 0
        if np.abs(w).max() < 1e-9:
            return None
        return NumState(w, self.order, self.env, self.nid)

    def drop(self, q):
        o = tuple(("env", self.nid, q) if x == q else x for x in self.order)
        return NumState(self.vec, o, self.env, self.nid + 1)

    def definite(self, q):
        for v in (0, 1):
            if self.project(q, 1 - v) is None:
                return bool(v)
        return None

    def rho(self, order):
        ax = [self.order.index(q) for q in order]
        rest = [i for i in range(len(self.order)) if i not in ax]
        v = np.transpose(self.vec, ax + rest).reshape(2 ** len(ax), -1)
        return v @ v.conj().T


def num_gate(g, a):
    """gate matrices by matrix exponentials of generators: independent of gate_matrix above"""
    X = np.array([[0, 1], [1, 0]], complex)
    Y = np.array([[0, -1j], [1j, 0]], complex)
    Z = np.diag([1, -1]).astype(complex)
    I = np.eye(2, dtype=complex)

    def ex(P, t):  # exp(-i pi t/2 P), P^2=1
        return math.cos(math.pi * t / 2) * np.eye(len(P)) - 1j * math.sin(math.pi * t / 2) * P

    one = {"X": X, "Y": Y, "Z": Z, "H": (X + Z) / math.sqrt(2), "S": np.diag([1, 1j]), "Sdg": np.diag([1, -1j]),
           "T": np.diag([1, cmath.exp(0.25j * math.pi)]), "Tdg": np.diag([1, cmath.exp(-0.25j * math.pi)]), "noop": I}
    if g in one:
        return one[g]
    if g in ("Rx", "Ry", "Rz"):
        return ex({"x": X, "y": Y, "z": Z}[g[1]], a[0])
    if g == "V":
        return ex(X, 0.5)
    if g == "Vdg":
        return ex(X, -0.5)
    if g == "SX":
        return cmath.exp(0.25j * math.pi) * ex(X, 0.5)
    if g == "SXdg":
        return cmath.exp(-0.25j * math.pi) * ex(X, -0.5)
    if g == "U1":
        return np.diag([1, cmath.exp(1j * math.pi * a[0])])
    if g == "PhasedX":
        return ex(math.cos(math.pi * a[1]) * X + math.sin(math.pi * a[1]) * Y, a[0])
    if g == "TK1":
        return ex(Z, a[0]) @ ex(X, a[1]) @ ex(Z, a[2])
    if g == "U3":
        return cmath.exp(0.5j * math.pi * (a[1] + a[2])) * ex(Z, a[1]) @ ex(Y, a[0]) @ ex(Z, a[2])
    if g in ("CCX", "Toffoli"):
        M = np.eye(8)
        M[[6, 7]] = M[[7, 6]]
        return M
    if g == "CSWAP":
        M = np.eye(8)
        M[[5, 6]] = M[[6, 5]]
        return M
    if g == "SWAP":
        return (np.kron(I, I) + np.kron(X, X) + np.kron(Y, Y) + np.kron(Z, Z)) / 2
    if g in ("ZZPhase", "XXPhase", "YYPhase", "ZZMax"):
        P = {"Z": Z, "X": X, "Y": Y}[g[0]]
        return ex(np.kron(P, P), 0.5 if g == "ZZMax" else a[0])
    if g == "ECR":
        return (np.kron(X, I) - np.kron(Y, X)) / math.sqrt(2)
    if g[0] == "C":
        M = np.eye(4, dtype=complex)
        M[2:, 2:] = num_gate(g[1:], a)
        return M
    raise Unsupported(f"gate {g}")


def selftest():
    """the two gate tables agree (both are reference semantics, written independently)"""
    import random
    rnd = random.Random(5)
    names = {"H": 0, "X": 0, "Y": 0, "Z": 0, "S": 0, "Sdg": 0, "T": 0, "Tdg": 0, "V": 0, "Vdg": 0, "SX": 0, "SXdg": 0,
             "U1": 1, "Rx": 1, "Ry": 1, "Rz": 1, "PhasedX": 2, "TK1": 3, "U3": 3, "CX": 0, "CY": 0, "CZ": 0, "CH": 0,
             "CRz": 1, "CRx": 1, "CRy": 1, "CU1": 1, "CV": 0, "CVdg": 0, "CSX": 0, "ZZPhase": 1, "XXPhase": 1, "YYPhase": 1,
             "ZZMax": 0, "ECR": 0, "SWAP": 0, "CCX": 0, "CSWAP": 0, "CS": 0, "CSdg": 0, "CSXdg": 0, "CU3": 3, "noop": 0}
    for g, n in names.items():
        env = {f"t{i}": rnd.uniform(-3, 3) for i in range(n)}
        M, k = gate_matrix(g, [sym(f"t{i}") for i in range(n)])
        A = np.array([[aval(x, env) for x in r] for r in M]) * 2 ** (-k / 2)
        B = num_gate(g, [env[f"t{i}"] for i in range(n)])
        assert np.allclose(A, B), (g, A, B)
    return len(names)
