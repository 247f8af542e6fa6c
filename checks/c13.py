import random
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C13", ["BorrowSquashPass / borrow_squash_traversal / next_array_op / find_const (tket/src/passes/borrow_squash.rs)", "NormalizeGuppy with squash_borrows only"],
           "random borrow/return/gate sequences (quick 500, thorough 6000): flat arrays of 1..4 qubits and 2x2 nested arrays, 4..14 operations, indices constant, repeated, symbolic inputs or folded; "
           "copies in DFG/conditional/loop bodies, function calls in between, double borrows and double returns (which panic); input states, angles, and unknown indices symbolic",
           SEM)
P = {"squash": [{"t": "borrow_squash"}], "guppy": [{"t": "guppy", "untuple": False}], "only": [{"t": "guppy", "cfgs": False, "untuple": False, "fold": False, "dead": False, "inline": False}]}
EX = "collections.borrow_arr."


def flat(r, wrong):
    n = r.randint(1, 4)
    T = BARR(n, QB)
    A = [nat(n), tyarg(QB)]
    m = Module()
    ex = m.decl("touch", [QB], [QB])
    f = m.main([QB] * n + [USIZE, BOOL], None)
    arr = f.op(EX + "new_array", f.ins[:n], A, [T])[0]
    unk = f.ins[n]
    cond = f.ins[n + 1]
    consts = {}

    def idx(d, i):
        if i is None:
            return unk if d is f else None
        if d is f and i in consts and r.random() < 0.6:
            return consts[i]
        w = d.usize(i)
        if d is f:
            consts[i] = w
        return w

    def body(d, arr, k, depth):
        held = []  # (index or None, qubit wire)
        for _ in range(k):
            x = r.random()
            if x < 0.4 or not held:
                free = [i for i in range(n) if i not in [h[0] for h in held]]
                if wrong and r.random() < 0.12:
                    free = list(range(n))
                if not free:
                    continue
                i = r.choice(free)
                if d is f and wrong and r.random() < 0.12:
                    i = None
                arr, q = d.op(EX + "borrow", [arr, idx(d, i)], A, [T, QB], ordered=True)
                held.append((i, q))
            elif x < 0.8:
                j = r.randrange(len(held))
                i, q = held.pop(j)
                if wrong and r.random() < 0.12:
                    i = r.randrange(n)
                if r.random() < 0.1 and held:
                    # give back another qubit than the one taken: a swap
                    i2, q2 = held.pop()
                    held.append((i2, q))
                    q = q2
                arr = d.op(EX + "return", [arr, idx(d, i), q], A, [T], ordered=True)[0]
            elif x < 0.88 and len(held) > 1:
                a, b = d.op("tket.quantum.CX", [held[0][1], held[1][1]], ordered=True)
                held[0], held[1] = (held[0][0], a), (held[1][0], b)
            elif x < 0.93 and depth:
                if r.random() < 0.5:
                    c = d.dfg([arr], [T], ordered=True)
                    c.out(body(c, c.ins[0], 3, 0)[:1])
                    arr = c.outs[0]
                elif d is f:
                    a, b = d.cond(cond, [arr], [T], ordered=True)
                    for c in (a, b):
                        c.out([body(c, c.ins[0], 4, 0)[0]])
                    arr = a.outs[0]
            elif x < 0.95:
                held[0] = (held[0][0], d.call(ex, [held[0][1]], ordered=True)[0])
            else:
                j = r.randrange(len(held))
                held[j] = (held[j][0], d.op("tket.quantum." + r.choice("HTXSY"), [held[j][1]], ordered=True)[0])
        for i, q in held:
            arr = d.op(EX + "return", [arr, idx(d, i), q], A, [T], ordered=True)[0]
        return [arr]
    arr = body(f, arr, r.randint(4, 14), 1)[0]
    o = f.op(EX + "unpack", [arr], A, [QB] * n, ordered=True)
    f.out(o)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
    return m.json()


def nested(r, wrong):
    """array of 2 arrays of 2 qubits"""
    T = BARR(2, QB)
    TT = BARR(2, T)
    A, AA = [nat(2), tyarg(QB)], [nat(2), tyarg(T)]
    m = Module()
    f = m.main([QB] * 4, None)
    a0 = f.op(EX + "new_array", f.ins[:2], A, [T])[0]
    a1 = f.op(EX + "new_array", f.ins[2:], A, [T])[0]
    outer = f.op(EX + "new_array", [a0, a1], AA, [TT])[0]
    for _ in range(r.randint(2, 5)):
        i = r.randrange(2)
        outer, inner = f.op(EX + "borrow", [outer, f.usize(i)], AA, [TT, T], ordered=True)
        for _ in range(r.randint(1, 2)):
            j = r.randrange(2)
            inner, q = f.op(EX + "borrow", [inner, f.usize(j)], A, [T, QB], ordered=True)
            if r.random() < 0.8:
                q = f.op("tket.quantum." + r.choice("HTXSY"), [q], ordered=True)[0]
            inner = f.op(EX + "return", [inner, f.usize(j if not wrong or r.random() < 0.85 else 1 - j), q], A, [T], ordered=True)[0]
        outer = f.op(EX + "return", [outer, f.usize(i if not wrong or r.random() < .9 else 1 - i), inner], AA, [TT], ordered=True)[0]
    b = f.op(EX + "unpack", [outer], AA, [T, T], ordered=True)
    o = f.op(EX + "unpack", b[:1], A, [QB] * 2, ordered=True) + f.op(EX + "unpack", b[1:], A, [QB] * 2, ordered=True)
    f.out(o)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in o]
    return m.json()


N = 500 if TIER == "quick" else 6000
ks = list(P)
for s in range(N):
    r = random.Random(f"c13/{SEED}/{s}")
    j = (nested if s % 4 == 0 else flat)(r, s % 3 == 0)
    ck.add(f"{'nest' if s % 4 == 0 else 'flat'}{s}", {"hugr": j}, {k: P[k] for k in ("squash", ks[1 + s % 2])})
ck.run_cases()
ck.finish()
