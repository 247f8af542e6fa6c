"""Reader and symbolic executor of the LLVM IR (textual, LLVM 14) that the compiler emits.

The runtime functions of the target (___rxy, ___measure, print_*, ...) are the observable interface: gates act on the symbolic quantum state, prints become the
events that the `tket.result` operations stand for.  Memory is byte-addressed per object; accesses outside an object, to released memory or of undefined values that
decide a branch end the path with a record of their own, which no HUGR program produces."""
import re
import z3
from fractions import Fraction as F
from . import sym as S
from .sym import BV, Poly, Unsupported
from .interp import Interp, Inconclusive, Path, Q, Sm, Fut, Err, Opq, Stats, fresh, norm, qubits, is_lazy, qalloc, ids, x_qsystem, EXT
from .hg import rows_of

# ------------------------------------------------------------------ syntax
TOK = re.compile(r'\s*(?:;.*$|(c?"(?:[^"\\]|\\.)*")|([%@]"(?:[^"\\]|\\.)*")|([%@!#][-\w.$]*)|(-?\d+\.\d+(?:e[+-]?\d+)?|0x[KML]?[0-9A-Fa-f]+|-?\d+)|([-\w.$]+)|(\.\.\.|[()\[\]{}<>,=*|:]))')


def toks(line):
    out, i = [], 0
    line = line.rstrip()
    while i < len(line):
        m = TOK.match(line, i)
        if not m or m.end() == i:
            if line[i:].strip() == "":
                break
            raise Unsupported(f"LLVM syntax: {line[i:i+40]}")
        i = m.end()
        t = next((g for g in m.groups() if g), None)
        if t is not None:
            if t[0] in "%@" and t[1:2] == '"':
                u = unq(t[2:-1])
                t = t if t[0] == "%" and u.isdigit() else t[0] + u  # "7" and 7 are different names
            out.append(t)
    return out


def unq(s):
    return re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)


PARAM_ATTR = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "readnone", "writeonly", "immarg", "returned", "inreg", "nofree", "noreturn"}


class Rd:
    """cursor over tokens"""

    def __init__(self, t, mod):
        self.t, self.i, self.m = t, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported(f"LLVM syntax: expected {x} at {' '.join(self.t[max(0, self.i-4):self.i+6])}")

    def skip(self, words):
        while self.peek() in words:
            self.i += 1

    def type(self):
        t = self.next()
        if re.fullmatch(r"i\d+", t):
            r = ("i", int(t[1:]))
        elif t in ("double", "float", "void", "label", "metadata"):
            r = (t,)
        elif t == "{" or t == "<" and self.peek() == "{":
            packed = t == "<"
            if packed:
                self.next()
            l = []
            while not self.eat("}"):
                l.append(self.type())
                self.eat(",")
            if packed:
                self.need(">")
            r = ("struct", tuple(l), packed)
        elif t == "[":
            n = int(self.next())
            self.need("x")
            r = ("arr", n, self.type())
            self.need("]")
        elif t == "ptr":
            r = ("ptr", ("i", 8))
        elif t[0] == "%":
            r = self.m.types[t[1:]]
        else:
            raise Unsupported(f"LLVM type {t}")
        while True:
            if self.eat("*"):
                r = ("ptr", r)
            elif self.peek() == "(" and r[0] != "label":
                self.next()
                l = []
                while not self.eat(")"):
                    if self.eat("..."):
                        l.append("...")
                    else:
                        l.append(self.type())
                    self.eat(",")
                r = ("fn", r, tuple(l))
            else:
                return r

    def value(self, ty):
        """operand: ('l', name) or ('c', constant value)"""
        t = self.next()
        if t[0] == "%":
            return ("l", t[1:])
        if t[0] == "@":
            return ("g", t[1:])
        if t in ("true", "false"):
            return ("c", t == "true")
        if t in ("undef", "poison"):
            return ("c", undef(ty))
        if t == "null":
            return ("c", NULL)
        if t == "zeroinitializer":
            return ("c", zero(ty))
        if ty[0] == "i" and re.fullmatch(r"-?\d+", t):
            return ("c", bool(int(t) & 1) if ty[1] == 1 else BV(ty[1], int(t)))
        if ty[0] == "double":
            if t.startswith("0x"):
                import struct
                return ("c", S.from_float(struct.unpack(">d", bytes.fromhex(t[2:].zfill(16)))[0]))
            return ("c", S.from_float(float(t)))
        if t in ("{", "[") or t == "<" and self.peek() == "{":
            if t == "<":
                self.next()
            close = "]" if t == "[" else "}"
            l = []
            while not self.eat(close):
                e = self.type()
                l.append(self.value(e))
                self.eat(",")
            if t == "<":
                self.need(">")
            return ("agg", l)
        if t[0] == "c" and t[1:2] == '"':
            return ("c", tuple(BV(8, ord(c)) for c in unq(t[2:-1])))
        if t in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "trunc", "zext"):
            self.eat("inbounds")
            self.need("(")
            if t == "getelementptr":
                src = self.type()
                l = []
                while not self.eat(")"):
                    self.eat(",")
                    self.eat("inrange")
                    e = self.type()
                    l.append((e, self.value(e)))
                return ("gep", src, l)
            a = self.type()
            v = self.value(a)
            self.need("to")
            b = self.type()
            self.need(")")
            return ("cast", t, a, v, b)
        if t in BIN or t == "icmp":
            self.skip(FLAGS)
            pred = self.next() if t == "icmp" else None
            self.need("(")
            a, x = self.tv()
            self.need(",")
            b, y = self.tv()
            self.need(")")
            return ("bin", t, pred, a, x, y)
        raise Unsupported(f"LLVM constant {t}")

    def tv(self):
        ty = self.type()
        while self.peek() in PARAM_ATTR:
            self.next()
        if self.peek() in ("align", "dereferenceable"):
            self.i += 2
        return ty, self.value(ty)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()
NULL = None


def undef(t):
    if t[0] == "struct":
        return tuple(undef(x) for x in t[1])
    if t[0] == "arr":
        return tuple(undef(t[2]) for _ in range(t[1]))
    return UNDEF


def zero(t):
    if t[0] == "struct":
        return tuple(zero(x) for x in t[1])
    if t[0] == "arr":
        return tuple(zero(t[2]) for _ in range(t[1]))
    if t[0] == "i":
        return False if t[1] == 1 else BV(t[1], 0)
    if t[0] == "double":
        return S.ZERO
    return NULL


def align(t):
    if t[0] == "i":
        return min(8, 1 << max(0, (t[1] + 7) // 8 - 1).bit_length())
    if t[0] in ("double", "ptr"):
        return 8
    if t[0] == "arr":
        return align(t[2])
    if t[0] == "struct":
        return 1 if t[2] else max([align(x) for x in t[1]] or [1])
    raise Unsupported(f"align {t}")


def size(t):
    if t[0] == "i":
        n = (t[1] + 7) // 8
        a = align(t)
        return (n + a - 1) // a * a
    if t[0] in ("double", "ptr"):
        return 8
    if t[0] == "arr":
        return t[1] * size(t[2])
    if t[0] == "struct":
        o, a = offs(t)
        return a
    raise Unsupported(f"size {t}")


_offs = {}


def offs(t):
    """(field offsets, size)"""
    if t not in _offs:
        l, o = [], 0
        for x in t[1]:
            a = 1 if t[2] else align(x)
            o = (o + a - 1) // a * a
            l.append(o)
            o += size(x)
        a = align(t)
        _offs[t] = (l, (o + a - 1) // a * a)
    return _offs[t]


LINK = {"private", "internal", "external", "linkonce_odr", "weak", "dso_local", "local_unnamed_addr", "unnamed_addr", "constant", "global", "hidden", "common", "thread_local"}


class Module:
    def __init__(self, text):
        self.types, self.globals, self.fns, self.decls = {}, {}, {}, {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s[0] in ";!" or s.startswith(("source_filename", "target ", "attributes", "module asm")):
                continue
            if s.startswith("define"):
                body = []
                while lines[i].rstrip() != "}":
                    b = lines[i]
                    if b.rstrip().endswith("["):
                        while "]" not in lines[i].split(";")[0].strip()[:1]:
                            i += 1
                            b += " " + lines[i]
                    body.append(b)
                    i += 1
                i += 1
                self.define(s, body)
            elif s.startswith("declare"):
                r = Rd(toks(s)[1:], self)
                r.skip(LINK | PARAM_ATTR)
                rt = r.type_only() if False else self.ret_type(r)
                name = r.next()[1:]
                self.decls[name] = rt
            elif s[0] == "@":
                r = Rd(toks(s), self)
                name = r.next()[1:]
                r.need("=")
                r.skip(LINK)
                ty = r.type()
                self.globals[name] = (ty, r.value(ty) if r.peek() not in (None, ",") else None)
            elif s[0] == "%":
                r = Rd(toks(s), self)
                name = r.next()[1:]
                r.need("=")
                r.need("type")
                self.types[name] = r.type()
            else:
                raise Unsupported(f"LLVM syntax: {s[:60]}")

    def ret_type(self, r):
        """type of a function header up to its name (the '(' after the name must not be read)"""
        j = next(k for k in range(r.i, len(r.t)) if r.t[k][0] == "@")
        sub = Rd(r.t[r.i:j], self)
        r.i = j
        return sub.type()

    def define(self, head, body):
        r = Rd(toks(head.rstrip("{").rstrip())[1:], self)
        r.skip(LINK | PARAM_ATTR)
        rt = self.ret_type(r)
        name = r.next()[1:]
        r.need("(")
        params = []
        while not r.eat(")"):
            ty = r.type()
            while r.peek() in PARAM_ATTR:
                r.next()
            params.append((r.next()[1:], ty))
            r.eat(",")
        blocks, cur = {}, None
        first = None
        for b in body:
            s = b.strip()
            if not s or s[0] == ";":
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):(?:\s|$)', s)
            if m and not b.startswith("  "):
                cur = unq(m.group(1).strip('"'))
                blocks[cur] = []
                first = first or cur
                continue
            if cur is None:
                cur = first = str(len(params))
                blocks[cur] = []
            blocks[cur].append(s)
        self.fns[name] = Fn(name, rt, params, blocks, first, self)


class Fn:
    def __init__(self, name, rt, params, raw, first, mod):
        self.name, self.rt, self.params, self.raw, self.first, self.mod = name, rt, params, raw, first, mod
        self.parsed = {}

    def block(self, b):
        if b not in self.parsed:
            self.parsed[b] = [inst(s, self.mod) for s in self.raw[b]]
        return self.parsed[b]


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui"}
FLAGS = {"nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "tail", "notail", "musttail", "volatile", "inbounds", "inalloca"}


def inst(s, mod):
    r = Rd(toks(s), mod)
    dst = None
    if r.peek(1) == "=":
        dst = r.next()[1:]
        r.next()
    r.skip(FLAGS)
    op = r.next()
    r.skip(FLAGS)
    if op == "alloca":
        ty = r.type()
        n = None
        if r.eat(",") and r.peek() not in ("align", "addrspace"):
            n = r.tv()
        return (op, dst, ty, n)
    if op == "store":
        ty, v = r.tv()
        r.need(",")
        pt, p = r.tv()
        return (op, None, ty, v, p)
    if op == "load":
        ty = r.type()
        r.need(",")
        pt, p = r.tv()
        return (op, dst, ty, p)
    if op == "getelementptr":
        src = r.type()
        l = []
        while r.eat(","):
            l.append(r.tv())
        return (op, dst, src, l)
    if op in BIN:
        ty, a = r.tv()
        r.need(",")
        return (op, dst, ty, a, r.value(ty))
    if op == "fneg":
        ty, a = r.tv()
        return (op, dst, ty, a)
    if op in ("icmp", "fcmp"):
        r.skip(FLAGS)
        pred = r.next()
        ty, a = r.tv()
        r.need(",")
        return (op, dst, pred, ty, a, r.value(ty))
    if op in CASTS:
        ty, a = r.tv()
        r.need("to")
        return (op, dst, ty, a, r.type())
    if op == "select":
        c = r.tv()
        r.need(",")
        a = r.tv()
        r.need(",")
        b = r.tv()
        return (op, dst, c[1], a[1], b[1])
    if op in ("extractvalue", "insertvalue"):
        ty, a = r.tv()
        v = None
        if op == "insertvalue":
            r.need(",")
            v = r.tv()[1]
        ix = []
        while r.eat(","):
            if r.peek()[0] == "!":
                break
            ix.append(int(r.next()))
        return (op, dst, a, v, ix)
    if op == "phi":
        ty = r.type()
        l = {}
        while True:
            r.need("[")
            v = r.value(ty)
            r.need(",")
            l[r.next()[1:]] = v
            r.need("]")
            if not r.eat(","):
                break
        return (op, dst, l)
    if op == "br":
        if r.eat("label"):
            return ("jmp", None, r.next()[1:])
        ty, c = r.tv()
        r.need(",")
        r.need("label")
        a = r.next()[1:]
        r.need(",")
        r.need("label")
        return (op, None, c, a, r.next()[1:])
    if op == "switch":
        ty, v = r.tv()
        r.need(",")
        r.need("label")
        d = r.next()[1:]
        r.need("[")
        l = []
        while not r.eat("]"):
            t2 = r.type()
            k = r.value(t2)[1]
            r.need(",")
            r.need("label")
            l.append((k, r.next()[1:]))
        return (op, None, v, d, l)
    if op == "ret":
        if r.eat("void"):
            return (op, None, None)
        return (op, None, r.tv()[1])
    if op == "unreachable":
        return (op, None)
    if op == "call":
        r.skip(PARAM_ATTR)
        j = next(k for k in range(r.i, len(r.t)) if r.t[k][0] in "@%" and k + 1 < len(r.t) and r.t[k + 1] == "(")
        rt = Rd(r.t[r.i:j], mod).type()
        r.i = j
        f = r.value(("ptr", rt))
        r.need("(")
        args = []
        while not r.eat(")"):
            args.append(r.tv())
            r.eat(",")
        return (op, dst, rt, f, args)
    if op == "freeze":
        return ("copy", dst, r.tv()[1])
    raise Unsupported(f"LLVM instruction {op}")


# ------------------------------------------------------------------ memory
class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Mem:
    """objects: id -> [size, {offset: (bytes, value)}, freed]"""

    def __init__(self):
        self.objs, self.n, self.fut = {}, 0, {}

    def copy(self):
        m = Mem()
        m.objs = {k: [o[0], dict(o[1]), o[2]] for k, o in self.objs.items()}
        m.n = self.n
        m.fut = dict(self.fut)
        return m

    def new(self, sz):
        self.n += 1
        self.objs[self.n] = [sz, {}, False]
        return Ptr(self.n)


class UB(Exception):
    pass


class Raw:
    """8 bytes written by the environment, which have a type only once they are read"""

    def __init__(self, name):
        self.name = name


FUTN = 0
ARRAY_MSG = {"Array element is already borrowed": "borrowed element", "Some array elements have been borrowed": "borrowed element",
             "Array contains non-borrowed elements and cannot be discarded": "not all borrowed",
             "Array already contains an element at this index": "not borrowed", "Index out of bounds": "index out of bounds"}


class LInterp(Interp):
    def __init__(self, text, ins, outs, fn, max_meas=6, max_loop=12, alloc_fail=False, numeric=False, opts=None):
        self.mod = Module(text)
        self.ins, self.outs = ins, outs
        self.max_meas, self.max_loop, self.alloc_fail, self.numeric = max_meas, max_loop, alloc_fail, numeric
        self.done, self.st, self.opts, self.oracle = [], Stats(), opts or {}, {}
        self.maxpaths = 4000
        self.depth = 0
        self.names = {}
        fs = [f for f in self.mod.fns if f == fn or f.startswith(f"__hugr__.{fn}.")]
        if len(fs) != 1:
            raise Inconclusive(f"function {fn} not found in the module: {list(self.mod.fns)}")
        self.fn = fs[0]
        self.gptr = {}

    # -------------------------------------------------------------- globals and operands
    def gaddr(self, name, mem):
        if name in self.mod.fns or name in self.mod.decls:
            return FnPtr(name)
        k = ("g", name)
        if k not in mem.objs:
            ty, init = self.mod.globals[name]
            mem.objs[k] = [size(ty), {}, False]
            if init is not None:
                self.put(mem, k, 0, ty, self.val(init, {}, mem))
        return Ptr(k)

    def val(self, v, loc, mem):
        k = v[0]
        if k == "l":
            return loc[v[1]]
        if k == "c":
            return v[1]
        if k == "g":
            return self.gaddr(v[1], mem)
        if k == "agg":
            return tuple(self.val(x, loc, mem) for x in v[1])
        if k == "gep":
            return self.gep(v[1], [(t, self.val(x, loc, mem)) for t, x in v[2]])
        if k == "cast":
            return self.cast(v[1], v[2], self.val(v[3], loc, mem), v[4])
        if k == "bin":
            a, b = self.val(v[4], loc, mem), self.val(v[5], loc, mem)
            return self.icmp(v[2], v[3], a, b) if v[1] == "icmp" else self.arith(v[1], v[3], a, b)
        raise Unsupported(f"operand {k}")

    def gep(self, src, l):
        p = l[0][1]
        if p is NULL:
            p = Ptr("null")
        if p is UNDEF:
            return UNDEF
        if not isinstance(p, Ptr):
            raise Unsupported("getelementptr of a non-pointer")
        off = p.off
        ty = src

        def add(off, i, sz):
            if i is UNDEF:
                raise UB("undefined index")
            if i.conc():
                d = i.signed() * sz
                return off + d if isinstance(off, int) else z3.simplify(off + d)
            e = i.z() if i.w == 64 else z3.SignExt(64 - i.w, i.z())
            e = z3.simplify((z3.BitVecVal(off, 64) if isinstance(off, int) else off) + e * sz)
            return e.as_signed_long() if z3.is_bv_value(e) else e
        off = add(off, l[1][1], size(ty))
        for t, i in l[2:]:
            if ty[0] == "struct":
                k = i.v
                off = off + offs(ty)[0][k]
                ty = ty[1][k]
            elif ty[0] == "arr":
                ty = ty[2]
                off = add(off, i, size(ty))
            else:
                raise Unsupported(f"getelementptr into {ty}")
        return Ptr(p.o, off)

    # -------------------------------------------------------------- loads and stores
    def put(self, mem, o, off, ty, v):
        if ty[0] == "struct":
            for x, d, t in zip(v, offs(ty)[0], ty[1]):
                self.put(mem, o, off + d, t, x)
            return
        if ty[0] == "arr":
            z = size(ty[2])
            for k, x in enumerate(v):
                self.put(mem, o, off + k * z, ty[2], x)
            return
        ob = mem.objs.get(o)
        z = size(ty)
        if ob is None or ob[2]:
            raise UB("store to released memory")
        if off < 0 or off + z > ob[0]:
            raise UB("store out of bounds")
        ent = ob[1]
        if ent.get(off, (z,))[0] != z or off not in ent:
            for k in [k for k, (n, _) in ent.items() if k < off + z and off < k + n]:
                del ent[k]
        ent[off] = (z, v)

    def get(self, mem, o, off, ty):
        if ty[0] == "struct":
            return tuple(self.get(mem, o, off + d, t) for d, t in zip(offs(ty)[0], ty[1]))
        if ty[0] == "arr":
            z = size(ty[2])
            return tuple(self.get(mem, o, off + k * z, ty[2]) for k in range(ty[1]))
        ob = mem.objs.get(o)
        z = size(ty)
        if ob is None or ob[2]:
            raise UB("load from released memory")
        if off < 0 or off + z > ob[0]:
            raise UB("load out of bounds")
        e = ob[1].get(off)
        if e is None:
            if any(k < off + z and off < k + n for k, (n, _) in ob[1].items()):
                raise Unsupported("load of part of a value")
            return UNDEF
        if e[0] != z:
            raise Unsupported("load of part of a value")
        return self.retype(e[1], ty)

    def retype(self, v, ty):
        if v is UNDEF:
            return v
        if isinstance(v, Raw):
            if ty not in (("i", 64), ("double",)):
                raise Unsupported("load of a value of another type")
            return self.symbol(v.name + (".i" if ty[0] == "i" else ".f"), 64 if ty[0] == "i" else "r")
        if ty[0] == "i":
            if ty[1] == 1 and isinstance(v, BV):
                return bool(v.v & 1) if v.conc() else S.zbool(z3.Extract(0, 0, v.z()) == 1)
            if ty[1] == 8 and (isinstance(v, bool) or z3.is_bool(v)):
                return self.b2bv(v, 8)
            if isinstance(v, BV) and v.w != ty[1] or isinstance(v, Poly):
                raise Unsupported("load of a value of another type")
        if ty[0] == "double" and not isinstance(v, Poly):
            raise Unsupported("load of a value of another type")
        return v

    def b2bv(self, b, w):
        if isinstance(b, bool):
            return BV(w, int(b))
        return S.bvs(w, z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))

    def places(self, path, p, z):
        """[(path, object, concrete offset)]"""
        if p is UNDEF or p is NULL:
            raise UB("access through an undefined pointer")
        if not isinstance(p, Ptr):
            raise Unsupported("access through a function pointer")
        if isinstance(p.off, int):
            return [(path, p.o, p.off)]
        ob = path.heap.objs.get(p.o)
        out = []
        cands = range(0, (ob[0] if ob else 0) - z + 1, z)
        if len(cands) > 64:
            raise Unsupported("symbolic index into a large object")
        for k in cands:
            c = path.conds + (S._s(p.off == k),)
            if c[-1] is False:
                continue
            if self.feasible(c):
                out.append((path.w(conds=c), p.o, k))
        c = S._s(z3.And(*[p.off != k for k in cands])) if cands else True
        if c is not False:
            cs = path.conds + ((c,) if c is not True else ())
            if self.feasible(cs):
                self.stop(path.w(conds=cs), "ub", "index out of bounds")
        return own(out)

    # -------------------------------------------------------------- arithmetic
    def cast(self, op, a, v, b):
        if v is UNDEF:
            return undef(b)
        if op == "bitcast":
            if a[0] == "ptr" and b[0] == "ptr" or a == b:
                return v
            raise Unsupported("bitcast")
        if op == "zext" or op == "sext":
            if isinstance(v, bool) or z3.is_bool(v):
                x = self.b2bv(v, b[1])
                return x if op == "zext" else S.bvs(b[1], -x.z())
            if v.conc():
                return BV(b[1], v.v if op == "zext" else v.signed())
            return S.bvs(b[1], (z3.ZeroExt if op == "zext" else z3.SignExt)(b[1] - v.w, v.z()))
        if op == "trunc":
            if isinstance(v, (Q, Fut)):
                raise Unsupported("truncated handle")
            if b[1] == 1:
                return bool(v.v & 1) if v.conc() else S.zbool(z3.Extract(0, 0, v.z()) == 1)
            return BV(b[1], v.v) if v.conc() else S.bvs(b[1], z3.Extract(b[1] - 1, 0, v.z()))
        if op in ("uitofp", "sitofp"):
            if isinstance(v, bool) or z3.is_bool(v):
                v = self.b2bv(v, 1)
            if v.conc():
                return S.num(v.v if op[0] == "u" else v.signed())
            nm = f"convert_{op[0]}[{v.v.sexpr()}]"
            S.UNI.setdefault(nm, None)
            return S.sym(nm)
        if op in ("fptosi", "fptoui") and v.is_num():
            import math
            return BV(b[1], math.trunc(v.value()))
        if op == "ptrtoint" and isinstance(v, Ptr) and v.o == "null":
            return BV(b[1], v.off)
        raise Unsupported(f"cast {op}")

    def arith(self, op, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty[0] == "double":
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            if op == "fdiv":
                return S.fdiv(a, b)
            raise Unsupported(op)
        if isinstance(a, (Q, Fut, Ptr)) or isinstance(b, (Q, Fut, Ptr)):
            raise Unsupported("arithmetic on a handle")
        w = ty[1]
        if w == 1:
            if op == "and":
                return S.band(a, b)
            if op == "or":
                return S.bor(a, b)
            if op in ("xor", "add", "sub"):
                return S.bxor(a, b)
            raise Unsupported(f"{op} i1")
        if op in ("shl", "lshr", "ashr") and b.conc() and b.v >= w:
            return UNDEF
        if a.conc() and b.conc():
            x, y = a.v, b.v
            sx, sy = a.signed(), b.signed()
            if op in ("udiv", "sdiv", "urem", "srem"):
                if y == 0:
                    raise UB("division by zero")
                if op[0] == "s":
                    q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
                    return BV(w, q if op == "sdiv" else sx - q * sy)
                return BV(w, x // y if op == "udiv" else x % y)
            return BV(w, {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y,
                          "shl": x << min(y, w), "lshr": x >> min(y, w), "ashr": sx >> min(y, w)}[op])
        x, y = a.z(), b.z()
        f = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
             "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y, "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
             "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]
        return S.bvs(w, f())

    def icmp(self, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (Q, Fut)) or isinstance(b, (Q, Fut)):
            h, o = (a, b) if isinstance(a, (Q, Fut)) else (b, a)
            if isinstance(o, BV) and o.conc() and o.signed() == -1 and pred in ("eq", "ne"):
                return pred == "ne"
            raise Unsupported("comparison of handles")
        if ty[0] == "ptr":
            n = lambda v: v is NULL or isinstance(v, Ptr) and v.o == "null"
            if n(a) or n(b):
                return (n(a) and n(b)) == (pred == "eq")
            if a.o == b.o and isinstance(a.off, int) and isinstance(b.off, int) and pred in ("eq", "ne"):
                return (a.off == b.off) == (pred == "eq")
            raise Unsupported("pointer comparison")
        if ty == ("i", 1):
            x = S.bxor(a, b)
            if pred in ("eq", "ne"):
                return x if pred == "ne" else S.bnot(x)
            a, b = self.b2bv(a, 1), self.b2bv(b, 1)
        if a.conc() and b.conc():
            x, y = (a.signed(), b.signed()) if pred[0] == "s" else (a.v, b.v)
            return {"eq": x == y, "ne": x != y, "gt": x > y, "lt": x < y, "ge": x >= y, "le": x <= y}[pred if pred in ("eq", "ne") else pred[1:]]
        x, y = a.z(), b.z()
        return S.zbool({"eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: z3.UGT(x, y), "ult": lambda: z3.ULT(x, y), "uge": lambda: z3.UGE(x, y),
                        "ule": lambda: z3.ULE(x, y), "sgt": lambda: x > y, "slt": lambda: x < y, "sge": lambda: x >= y, "sle": lambda: x <= y}[pred]())

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pred in ("true", "false"):
            return pred == "true"
        inf = {S.from_float(float("inf")): 1, S.from_float(float("-inf")): -1}
        ia, ib = inf.get(a, 0), inf.get(b, 0)
        if pred in ("ord", "uno"):
            return pred == "ord"
        p = pred[1:]
        if ia or ib:  # symbolic floats are finite
            return {"eq": ia == ib, "ne": ia != ib, "lt": ia < ib, "gt": ia > ib, "le": ia <= ib, "ge": ia >= ib}[p]
        d = a - b
        if d.is_num():
            v = d.value()
            return {"eq": v == 0, "ne": v != 0, "lt": v < 0, "gt": v > 0, "le": v <= 0, "ge": v >= 0}[p]
        z = S.to_z3r(d)
        return S.zbool({"eq": z == 0, "ne": z != 0, "lt": z < 0, "gt": z > 0, "le": z <= 0, "ge": z >= 0}[p])

    def select(self, path, c, a, b):
        """[(path, value)]"""
        if c is UNDEF:
            return [(path, UNDEF)]
        if isinstance(c, bool):
            return [(path, a if c else b)]
        v = merge(c, a, b)
        if v is not NotImplemented:
            return [(path, v)]
        return own([(p, a if t else b) for p, t in self.branch(path, c)])

    # -------------------------------------------------------------- running
    def run(self, path, args):
        path = path.w(heap=Mem())
        for p, r in self.call(self.fn, path, args):
            outs = [] if not self.outs else [r] if len(self.outs) == 1 else list(r)
            try:
                vals = tuple(norm(self.decode(v, t, p), t) for v, t in zip(outs, self.outs))
            except UB as e:
                self.stop(p, "ub", str(e))
                continue
            left = {k: n for k, n in p.heap.fut.items() if n}
            if left:
                self.stop(p, "ub", f"{len(left)} measurement future(s) never released")
                continue
            self.done.append((p.w(heap=None), "ret", vals))
        return self.done

    def decode(self, v, t, p):
        if v is UNDEF:
            raise UB("undefined result")
        if t.get("id") == "bool":  # a lazy boolean
            tag, rest = v[0], v[1:]
            if tag is UNDEF or not isinstance(tag, bool):
                if z3.is_expr(tag):
                    raise Unsupported("symbolic lazy boolean")
                raise UB("undefined result")
            if tag:
                f = next(x for x in rest if isinstance(x, Fut))
                self.unref(p.heap, f)
                return f.v
            x = [x for x in rest if isinstance(x, bool) or z3.is_bool(x)]
            if not x:
                raise UB("undefined result")
            return x[0]
        if t["t"] == "Opaque" and t["id"] == "Future":
            self.unref(p.heap, v)
            return Fut(v.v)
        if t["t"] == "Sum" and t["s"] == "General" and len(t["rows"]) == 1:
            row = t["rows"][0]
            live = [x for x in row if not empty(x)]
            vs = iter([] if not live else [v] if len(live) == 1 else list(v))
            return Sm(0, [Sm(0, []) if empty(x) else self.decode(next(vs), x, p) for x in row])
        if isinstance(v, (Fut, Ptr)) or t["t"] == "Q" and not isinstance(v, Q):
            raise UB("result of another kind")
        return v

    def encode(self, v, t):
        if t.get("id") == "bool":
            return ("tbool", v)
        if t["t"] == "Sum" and t["s"] == "General" and len(t["rows"]) == 1:
            vs = [self.encode(x, y) for x, y in zip(v.vs, t["rows"][0]) if not empty(y)]
            return vs[0] if len(vs) == 1 else tuple(vs)
        if isinstance(v, (Sm,)) or t["t"] == "Opaque" and t["id"] not in ("int", "float64", "rotation"):
            raise Unsupported(f"argument of type {t}")
        return v

    def call(self, name, path, args):
        """[(path, returned value)]"""
        f = self.mod.fns.get(name)
        if f is None:
            return own(self.runtime(name, path, args))
        self.depth += 1
        if self.depth > 60:
            raise Inconclusive("recursion depth")
        loc = {}
        for (pn, pt), a in zip(f.params, args):
            if isinstance(a, tuple) and len(a) == 2 and a[0] == "tbool":  # strict lazy boolean: tag 0 and the value
                a = tuple(False if k == 0 else (a[1] if t == ("i", 1) else UNDEF) for k, t in enumerate(pt[1]))
            loc[pn] = a
        out = []
        work = [(path, f.first, None, loc, {})]
        try:
            while work:
                if len(work) + len(out) > self.maxpaths:
                    raise Inconclusive("too many paths")
                path, b, prev, loc, vis = work.pop()
                vis = dict(vis)
                vis[b] = vis.get(b, 0) + 1
                if vis[b] > 400:
                    raise Inconclusive("loop bound of the emitted code")
                try:
                    self.block(f, path, b, prev, loc, vis, work, out)
                except UB as e:
                    self.stop(path, "ub", str(e))
        finally:
            self.depth -= 1
        return out

    def block(self, f, path, b, prev, loc, vis, work, out):
        code = f.block(b)
        phis = {}
        i = 0
        while code[i][0] == "phi":
            phis[code[i][1]] = self.val(code[i][2][prev], loc, path.heap)
            i += 1
        loc.update(phis)
        states = [(path, loc)]
        for ins in code[i:]:
            op, dst = ins[0], ins[1]
            new = []
            for path, loc in states:
                self.st.nodes += 1
                try:
                    if op in ("jmp", "br", "switch", "ret", "unreachable"):
                        self.terminate(op, ins, path, loc, b, vis, work, out)
                        continue
                    rs = self.step(op, ins, path, loc)
                except UB as e:
                    self.stop(path, "ub", str(e))
                    continue
                for k, (p, v) in enumerate(rs):
                    l = loc if k == len(rs) - 1 else dict(loc)
                    new.append((p, l, v))
                for p, l, v in new[-len(rs):] if rs else ():
                    if dst is not None:
                        l[dst] = v
            if op in ("jmp", "br", "switch", "ret", "unreachable"):
                return
            states = [(p, l) for p, l, v in new]
            if not states:
                return

    def terminate(self, op, ins, path, loc, b, vis, work, out):
        if op == "jmp":
            work.append((path, ins[2], b, loc, vis))
        elif op == "br":
            c = self.val(ins[2], loc, path.heap)
            if c is UNDEF:
                raise UB("branch on an undefined value")
            rs = own(self.branch(path, c))
            v2 = vis
            if len(rs) > 1 or not isinstance(c, bool):
                k = ("sym", b)
                v2 = dict(vis)
                v2[k] = v2.get(k, 0) + 1
                if v2[k] > self.max_loop:
                    for p, _ in rs:
                        self.stop(p, "bound")
                    return
            for p, t in rs:
                work.append((p, ins[3] if t else ins[4], b, dict(loc), v2))
        elif op == "switch":
            v = self.val(ins[2], loc, path.heap)
            if v is UNDEF:
                raise UB("branch on an undefined value")
            if isinstance(v, bool):
                work.append((path, next((l for k, l in ins[4] if k == v), ins[3]), b, loc, vis))
                return
            if isinstance(v, BV) and v.conc():
                work.append((path, next((l for k, l in ins[4] if k.v == v.v), ins[3]), b, loc, vis))
                return
            rest = [(path, True)]
            for k, l in ins[4]:
                c = self.icmp("eq", ("i", 1) if isinstance(k, bool) else ("i", k.w), v, k)
                nxt = []
                for p, _ in rest:
                    for p2, t in own(self.branch(p, c)):
                        if t:
                            work.append((p2, l, b, dict(loc), vis))
                        else:
                            nxt.append((p2, True))
                rest = nxt
            for p, _ in rest:
                work.append((p, ins[3], b, dict(loc), vis))
        elif op == "ret":
            out.append((path, None if ins[2] is None else self.val(ins[2], loc, path.heap)))
        else:
            raise UB("unreachable code reached")

    def step(self, op, ins, path, loc):
        """[(path, value)]"""
        mem = path.heap
        V = lambda v: self.val(v, loc, mem)
        if op == "alloca":
            n = 1
            if ins[3] is not None:
                n = V(ins[3][1])
                if not n.conc():
                    raise Unsupported("alloca of symbolic size")
                n = n.v
            return [(path, mem.new(size(ins[2]) * n))]
        if op == "store":
            v = V(ins[3])
            r = []
            for p, o, off in self.places(path, V(ins[4]), size(ins[2])):
                self.put(p.heap, o, off, ins[2], v)
                r.append((p, None))
            return r
        if op == "load":
            return [(p, self.get(p.heap, o, off, ins[2])) for p, o, off in self.places(path, V(ins[3]), size(ins[2]))]
        if op == "getelementptr":
            return [(path, self.gep(ins[2], [(t, V(x)) for t, x in ins[3]]))]
        if op in BIN:
            a, b = V(ins[3]), V(ins[4])
            if op in ("udiv", "sdiv", "urem", "srem") and isinstance(b, BV) and not b.conc() and a is not UNDEF:
                r = []
                for p, t in own(self.branch(path, S.zbool(b.z() == 0))):
                    if t:
                        self.stop(p, "ub", "division by zero")
                    else:
                        r.append((p, self.arith(op, ins[2], a, b)))
                return r
            return [(path, self.arith(op, ins[2], a, b))]
        if op == "fneg":
            a = V(ins[3])
            return [(path, a if a is UNDEF else -a)]
        if op == "icmp":
            return [(path, self.icmp(ins[2], ins[3], V(ins[4]), V(ins[5])))]
        if op == "fcmp":
            return [(path, self.fcmp(ins[2], V(ins[4]), V(ins[5])))]
        if op in CASTS:
            return [(path, self.cast(op, ins[2], V(ins[3]), ins[4]))]
        if op == "select":
            return self.select(path, V(ins[2]), V(ins[3]), V(ins[4]))
        if op == "extractvalue":
            v = V(ins[2])
            for k in ins[4]:
                v = UNDEF if v is UNDEF else v[k]
            return [(path, v)]
        if op == "insertvalue":
            return [(path, ins_at(V(ins[2]), ins[4], V(ins[3])))]
        if op == "copy":
            return [(path, V(ins[2]))]
        if op == "call":
            f = V(ins[3])
            if not isinstance(f, FnPtr):
                raise UB("call of a non-function") if f is UNDEF or f is NULL else Unsupported("call of a non-function")
            if f.name in self.mod.decls and f.name not in self.mod.fns:
                self.rt = ins[2]
            return self.call(f.name, path, [V(x) for _, x in ins[4]])
        raise Unsupported(f"LLVM {op}")

    # -------------------------------------------------------------- the runtime interface
    def string(self, p, mem):
        """the text of a length-prefixed constant"""
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            raise UB("not a string")
        ob = mem.objs[p.o]
        n = self.get(mem, p.o, p.off, ("i", 8)).v
        if p.off + 1 + n != ob[0]:
            raise UB("the length byte of a string does not match its text")
        return "".join(chr(self.get(mem, p.o, p.off + 1 + k, ("i", 8)).v) for k in range(n)).encode("latin1").decode("utf8")

    def cstr(self, p, mem):
        """the text of a zero-terminated constant"""
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            raise UB("not a string")
        l, k = [], p.off
        while True:
            c = self.get(mem, p.o, k, ("i", 8))
            if not isinstance(c, BV) or not c.conc():
                raise UB("not a constant text")
            if c.v == 0:
                return "".join(l).encode("latin1").decode("utf8")
            l.append(chr(c.v))
            k += 1

    def gpu(self, name, p, a):
        """the GPU library: every call reports success or not"""
        mem = p.heap
        if name == "gpu_get_error":
            p = p.event("gpu", name)
            p, k = p.count("gpue")
            return own([(p2, NULL if none else Ptr("gpumsg")) for p2, none in self.branch(p, self.symbol(f"gpunomsg{k}", "b"))])
        p, k = p.count("gpu")
        want = {"gpu_validate_api": 3, "gpu_init": 2, "gpu_discard": 1, "gpu_get_function_id": 2, "gpu_call": 5, "gpu_get_result": 3}.get(name)
        if want != len(a):
            raise UB(f"{name} with {len(a)} arguments")
        ev = a
        if name in ("gpu_init", "gpu_get_function_id"):
            self.put(mem, a[1].o, a[1].off, ("i", 64), self.symbol(f"gpu{k}.out", 64))
            ev = [a[0] if name == "gpu_init" else self.cstr(a[0], mem)]
        elif name == "gpu_get_result":
            ev = a[:2]
            self.put(mem, a[2].o, a[2].off, ("i", 64), Raw(f"gpu{k}"))
        elif name == "gpu_call":
            s = self.cstr(a[4], mem)
            vs, off = [], a[3].off
            for c in s.split(":")[0]:
                ty = {"i": ("i", 64), "f": ("double",), "b": ("i", 8)}[c]
                v = self.get(mem, a[3].o, off, ty)
                if v is UNDEF:
                    raise UB("undefined GPU argument")
                vs.append(v)
                off += size(ty)
            ev = list(a[:3]) + [s] + vs
        return [(p.event("gpu", name, *ev), self.symbol(f"gpu{k}", 8))]

    def unref(self, mem, f):
        if not isinstance(f, Fut):
            raise UB("not a future")
        if mem.fut.get(f.id, 0) <= 0:
            raise UB("future used after its release")
        mem.fut[f.id] -= 1

    def live(self, mem, f):
        if not isinstance(f, Fut):
            raise UB("not a future")
        if mem.fut.get(f.id, 0) <= 0:
            raise UB("future used after its release")

    def fresh_fut(self, p, v):
        m = p.heap
        m.fut["n"] = 0
        k = len(m.fut)
        m.fut[k] = 1
        return Fut(v, k)

    def tag(self, a, kind, mem):
        s = self.string(a[0], mem)
        if a[1].v != len(s.encode("utf8")):
            raise UB("tag length")
        if not s.startswith("USER:" + kind + ":"):
            raise UB(f"tag {s}")
        return s[len("USER:" + kind + ":"):]

    def array1d(self, p, mem, ty):
        n = self.get(mem, p.o, p.off, ("i", 32)).v
        y = self.get(mem, p.o, p.off + 4, ("i", 32)).v
        d = self.get(mem, p.o, p.off + 8, ("ptr", ty))
        m = self.get(mem, p.o, p.off + 16, ("ptr", ("i", 1)))
        if y != 1:
            raise UB("array dimension")
        z = size(ty)
        if not isinstance(d.off, int):
            raise Unsupported("symbolic array start")
        for k in range(n):
            if self.get(mem, m.o, m.off + k, ("i", 1)) is not False:
                raise UB("masked array element")
        vs = [self.get(mem, d.o, d.off + k * z, ty) for k in range(n)]
        if any(v is UNDEF for v in vs):
            raise UB("undefined array element")
        return vs

    def qb(self, v):
        if not isinstance(v, Q):
            raise UB("not a qubit")
        return v

    def runtime(self, name, p, a):
        mem = p.heap
        if any(x is UNDEF for x in a) and not name.startswith("llvm.") and name not in ("heap_free", "free"):
            raise UB(f"undefined argument of {name}")
        if name in ("___rz", "___rxy", "___rzz"):
            nq = 2 if name == "___rzz" else 1
            for q in a[:nq]:
                self.qb(q)
            if nq == 2 and a[0].id == a[1].id:
                raise UB("the same qubit twice")
            g = {"___rz": "Rz", "___rxy": "PhasedX", "___rzz": "ZZPhase"}[name]
            return [(x, None) for x, _ in x_qsystem(self, g, [], p, a, None, None)]
        if name == "___qalloc":
            r = qalloc(self, p, False)
            return [(x, o[0].vs[0] if o[0].tag else BV(64, -1)) for x, o in r]
        if name == "___qfree":
            return [(p.w(q=p.q.drop(self.qb(a[0]).id)), None)]
        if name == "___reset":
            return [(self.reset(p, self.qb(a[0])), None)]
        if name == "___measure":
            return self.measure(p, self.qb(a[0]), True)
        if name in ("___lazy_measure", "___lazy_measure_leaked"):
            r = own(self.measure(p, self.qb(a[0]), True))
            return [(x, self.fresh_fut(x, v if name == "___lazy_measure" else BV(64, int(v)))) for x, v in r]
        if name == "___inc_future_refcount":
            self.live(mem, a[0])
            mem.fut[a[0].id] += 1
            return [(p, None)]
        if name == "___dec_future_refcount":
            self.unref(mem, a[0])
            return [(p, None)]
        if name == "___read_future_bool":
            self.live(mem, a[0])
            if isinstance(a[0].v, BV):
                raise UB("future of another type")
            return [(p, a[0].v)]
        if name == "___read_future_uint":
            self.live(mem, a[0])
            if not isinstance(a[0].v, BV):
                raise UB("future of another type")
            return [(p, a[0].v)]
        if name in PRINT:
            op, kind, ty = PRINT[name]
            t = self.tag(a, kind, mem)
            if name.endswith("_arr"):
                from .interp import Arr
                v = Arr(self.array1d(a[2], mem, ty))
            else:
                v = a[2]
            return [(p.event("result", op, t, v), None)]
        if name == "print_state_result":
            t = self.tag(a, "STATE", mem)
            vs = self.array1d(a[2], mem, ("i", 64))
            e = ids(p, [self.qb(v) for v in vs]) if self.opts.get("state_ids") else len(vs)
            return [(p.event("state", t, e), None)]
        if name == "panic":
            s = self.string(a[1], mem)
            if not s.startswith("EXIT:INT:"):
                raise UB(f"panic text {s}")
            s = s[9:]
            code = a[0]
            if not code.conc():
                e = Err(S.bvs(32, code.z()), s)
                return self.stop(p, "panic", e)
            k, kind = (code.v - 1000, "panic") if code.v > 1000 else (code.v, "exit")
            if kind == "panic" and s in ARRAY_MSG and k == 2:
                return self.stop(p, "panic", Err("array", ARRAY_MSG[s]))
            return self.stop(p, kind, Err(k, s))
        if name in ("heap_alloc", "malloc"):
            if not a[0].conc():
                raise Unsupported("allocation of symbolic size")
            return [(p, mem.new(a[0].v))]
        if name in ("heap_free", "free"):
            if a[0] is not NULL:
                if not isinstance(a[0], Ptr) or a[0].off != 0 or isinstance(a[0].o, tuple) or mem.objs[a[0].o][2]:
                    raise UB("invalid release of memory")
                mem.objs[a[0].o][2] = True
            return [(p, None)]
        if name == "get_current_shot":
            return [(p, self.symbol("shot", 64))]
        if name == "random_seed":
            p, k = p.count("rng")
            return [(p.w(cnt=dict(p.cnt, rngcur=k, rngc=0)).event("newrng", a[0]), None)]
        if name in ("random_int", "random_float", "random_rng", "random_advance"):
            if "rngcur" not in p.cnt:
                raise UB("random number without a seed")
            k, c = p.cnt["rngcur"], p.cnt["rngc"]
            p = p.w(cnt=dict(p.cnt, rngc=c + 1))
            if name == "random_advance":
                return [(p.event("rngadv", k, c, a[0]), None)]
            op = {"random_int": "RandomInt", "random_float": "RandomFloat", "random_rng": "RandomIntBounded"}[name]
            if op == "RandomFloat":
                return [(p, self.symbol(f"{op}.{k}.{c}", "r"))]
            return [(p.event(op, k, c, *a), self.symbol(f"{op}.{k}.{c}", 32))]
        if name.startswith("llvm."):
            return self.intrinsic(name, p, a)
        if name == "setup":
            return [(p.event("setup", a[0]), None)]
        if name == "teardown":
            return [(p.event("teardown"), self.symbol("teardown", 64))]
        if name.startswith("gpu_"):
            return self.gpu(name, p, a)
        if name == "panic_str":
            if not a[0].conc() or not isinstance(a[1], Ptr):
                raise UB("panic_str without a text")
            return self.stop(p, "panic", Err(f"panic_str {a[0].v}", "the library's message" if a[1].o == "gpumsg" else self.cstr(a[1], mem)))
        # a function of the program's own environment
        rt = self.mod.decls[name]
        m = re.fullmatch(r"__hugr__\.(.+)\.\d+", name)
        name = m[1] if m else name
        path, k = p.count(("decl", name))
        path = path.event("call", name, tuple(a))
        rts = [] if rt == ("void",) else list(rt[1]) if rt[0] == "struct" else [rt]
        sg = self.opts.get("decls", {}).get(name)
        outs = []
        qs = qubits(Sm(0, a))
        for i, t in enumerate(sg or []):
            if t["t"] == "Q":
                outs.append(Q(qs.pop(0)))
                continue
            path, v = fresh(path, t, f"{name}#{k}.{i}", self.opts.get("env"), self.opts)
            outs.append(v)
        if sg is None or len(outs) != len(rts):
            raise Unsupported(f"external function {name}")
        return [(path, None if not outs else outs[0] if len(outs) == 1 and rt[0] != "struct" else tuple(outs))]

    def intrinsic(self, name, p, a):
        b = name.split(".")[1]
        if b in ("lifetime", "dbg", "assume", "donothing"):
            return [(p, None)]
        if any(x is UNDEF for x in a):
            return [(p, UNDEF)]
        if b in ("memcpy", "memmove"):
            d, s, n = a[:3]
            if not (n.conc() and isinstance(d.off, int) and isinstance(s.off, int)):
                raise Unsupported("symbolic copy")
            if n.v == 0:
                return [(p, None)]
            do, so = p.heap.objs.get(d.o), p.heap.objs.get(s.o)
            if do is None or so is None or do[2] or so[2] or d.off < 0 or s.off < 0 or d.off + n.v > do[0] or s.off + n.v > so[0]:
                raise UB("copy out of bounds")
            ent = {k: e for k, e in so[1].items() if s.off <= k and k + e[0] <= s.off + n.v}
            if any(k < s.off + n.v and s.off < k + e[0] and k not in ent for k, e in so[1].items()):
                raise Unsupported("copy of part of a value")
            for k in [k for k, e in do[1].items() if k < d.off + n.v and d.off < k + e[0]]:
                del do[1][k]
            for k, e in ent.items():
                do[1][k - s.off + d.off] = e
            return [(p, None)]
        if b == "memset":
            d, v, n = a[:3]
            if not (n.conc() and v.conc() and isinstance(d.off, int)):
                raise Unsupported("symbolic fill")
            o = p.heap.objs.get(d.o)
            if o is None or o[2] or d.off < 0 or d.off + n.v > o[0]:
                raise UB("fill out of bounds")
            for k in [k for k, e in o[1].items() if k < d.off + n.v and d.off < k + e[0]]:
                del o[1][k]
            w = 8 if n.v % 8 == 0 and d.off % 8 == 0 else 1
            for k in range(0, n.v, w):
                o[1][d.off + k] = (w, BV(8 * w, int.from_bytes(bytes([v.v]) * w, "little")))
            return [(p, None)]
        if b in ("smax", "smin", "umax", "umin"):
            x, y = a[0].z(), a[1].z()
            c = {"smax": x > y, "smin": x < y, "umax": z3.UGT(x, y), "umin": z3.ULT(x, y)}[b]
            return [(p, S.bvs(a[0].w, z3.If(c, x, y)))]
        if b == "abs":
            x = a[0].z()
            return [(p, S.bvs(a[0].w, z3.If(x < 0, -x, x)))]
        if b in ("fshl", "fshr") and a[0] == a[1]:
            return [(p, S.bvs(a[0].w, (z3.RotateLeft if b == "fshl" else z3.RotateRight)(a[0].z(), a[2].z())))]
        f = {"fabs": "fabs", "floor": "ffloor", "ceil": "fceil", "round": "fround", "pow": "fpow", "maxnum": "fmax", "minnum": "fmin"}.get(b)
        if f:
            return [(p, S.uni(f, *a))]
        if b == "expect":
            return [(p, a[0])]
        raise Unsupported(f"intrinsic {name}")


PRINT = {"print_bool": ("result_bool", "BOOL", ("i", 1)), "print_int": ("result_int", "INT", ("i", 64)), "print_uint": ("result_uint", "INT", ("i", 64)),
         "print_float": ("result_f64", "FLOAT", ("double",)), "print_bool_arr": ("result_array_bool", "BOOLARR", ("i", 1)),
         "print_int_arr": ("result_array_int", "INTARR", ("i", 64)), "print_uint_arr": ("result_array_uint", "INTARR", ("i", 64)),
         "print_float_arr": ("result_array_f64", "FLOATARR", ("double",))}


def empty(t):
    """types without values of their own have no representation"""
    return t["t"] == "Sum" and (t["s"] == "General" and len(t["rows"]) == 1 and all(empty(x) for x in t["rows"][0]) or t["s"] == "Unit" and t["size"] == 1)


def ins_at(v, ix, x):
    if not ix:
        return x
    if v is UNDEF:
        raise Unsupported("insertvalue into an unknown aggregate")
    k = ix[0]
    return v[:k] + (ins_at(v[k], ix[1:], x),) + v[k + 1:]


def merge(c, a, b):
    """if-then-else of two values without forking, or NotImplemented"""
    if a is b:
        return a
    if (isinstance(a, bool) or z3.is_bool(a)) and (isinstance(b, bool) or z3.is_bool(b)):
        return S.bite(c, a, b)
    if isinstance(a, BV) and isinstance(b, BV):
        return S.bvs(a.w, z3.If(c, a.z(), b.z()))
    if isinstance(a, Poly) and isinstance(b, Poly) and a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = tuple(merge(c, x, y) for x, y in zip(a, b))
        return NotImplemented if any(x is NotImplemented for x in r) else r
    return NotImplemented


def own(rs):
    """every continuing path gets a memory of its own"""
    seen = set()
    out = []
    for r in rs:
        p = r[0]
        if id(p.heap) in seen:
            p = p.w(heap=p.heap.copy())
        seen.add(id(p.heap))
        out.append((p,) + tuple(r[1:]))
    return out


def run_side(j, state, opts):
    I = LInterp(j["llvm"], j["ins"], j["outs"], j["fn"], opts.get("max_meas", 7), opts.get("max_loop", 12), opts.get("alloc_fail", False), state.numeric,
                dict(opts, decls=j.get("decls", {})))
    p = Path(state)
    args = []
    for i, t in enumerate(j["ins"]):
        p, v = fresh(p, t, f"in{i}", opts.get("env"), opts)
        args.append(I.encode(v, t))
    if j["fn"] == "qmain":
        args = [I.symbol("time_cursor", 64)]
    inq = [a.id for a in args if isinstance(a, Q)]
    refs = [q for q in p.q.slots if q not in inq]
    I.run(p, args)
    if j["fn"] == "qmain":
        closed(I)
    return I, refs


def closed(I):
    """the entry point of a program: set-up, then the program, then clean-up, whose value is returned"""
    td, tc = I.symbol("teardown", 64), I.symbol("time_cursor", 64)
    for k, d in enumerate(I.done):
        p, kind, val = d[:3]
        ev = list(p.ev)
        ok = bool(ev) and ev[0][0] == "setup" and ev[0][1].z().eq(tc.z()) and all(e[0] != "setup" for e in ev[1:])
        ev = ev[1:]
        if kind == "ret":
            ok = ok and bool(ev) and ev[-1] == ("teardown",) and len(val) == 1 and val[0].z().eq(td.z())
            ev = ev[:-1]
            val = ()
        if not ok or ("teardown",) in ev:
            kind = "entry sequence"
        I.done[k] = (p.w(ev=tuple(ev)), kind, val) + tuple(d[3:])
