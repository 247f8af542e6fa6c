import copy
import itertools
import random
from vlib import drv
drv.build()
from vlib import common, pytk
from vlib.common import *
from vlib.fam import *

Q = TIER == "quick"
ck = Check("C12", ["TKETDecode::decode for SerialCircuit, PytketDecoderContext (tket/src/serialize/pytket/decoder*)", "param.pest, parse_pytket_param, load_half_turns_parameter (tket/src/serialize/pytket/decoder/)",
                   "SerialCircuit::encode, PytketEncoderContext (tket/src/serialize/pytket/encoder*)", "operation emitters and decoders (tket/src/serialize/pytket/extension/, tket-qsystem/src/pytket/)"],
           "circuits with at most 3 qubits, 3 bits and 11 commands, boxes one level deep; 150 requested signatures (thorough 2000) with up to 3 parameters as rotations or floats and up to 2 names; expressions up to depth 4; encoded programs with at most 4 qubits, 9 operations, 3 measurements", SEM + ["pytket circuits are read by an independent reader (vlib/pytk.py): sympy precedence in expressions, pytket's gate definitions and ClExpr positions"])
O = {"max_meas": 7}


def reg(n, i):
    return [n, [i]]


def circ(cmds, qs, bs, perm=None, phase="0.0"):
    perm = perm or list(range(len(qs)))
    return {"phase": phase, "commands": cmds, "qubits": qs, "bits": bs, "implicit_permutation": [[qs[p], qs[i]] for i, p in enumerate(perm)]}


def add_dec(name, j, opts=O):
    try:
        ref, names = pytk.read(j)
    except pytk.Unreadable as e:
        raise SystemExit(f"{name}: {e}")
    for q in (True, False):
        ck.add(f"{name}{'' if q else '-plain'}", {"pytket": j, "qsystem": q}, {"decode": []}, opts, before=ref)


# ---------------------------------------------------------------- expressions
def show(e, r, ctx=0):
    """print a tree with few parentheses.  ctx: 0 sum, 1 product, 2 unary, 3 power base, 4 atom"""
    k = e[0]
    sp = r.choice(["", " "])
    if k == "num":
        return e[1]
    if k == "var":
        return e[1]
    if k == "call":
        return f"{e[1]}({(',' + sp).join(show(x, r) for x in e[2])})"
    if k == "imp":
        return e[1] + (show(e[2], r, 4) if e[2][0] == "var" else f"({show(e[2], r)})" if e[2][0] != "call" else show(e[2], r, 4))
    lvl = {"+": 0, "-": 0, "*": 1, "/": 1, "neg": 2, "**": 3}[k]
    if k == "neg":
        s = "-" + show(e[1], r, 2)
    elif k == "**":
        s = show(e[1], r, 4) + sp + "**" + sp + show(e[2], r, 2)
    else:
        s = show(e[1], r, lvl) + sp + k + sp + show(e[2], r, lvl + 1)
    if lvl < ctx or r.random() < .08:
        return f"({s})"
    return s


def tree(r, n, vs):
    if n <= 0:
        return r.choice([("num", r.choice(["2", "3", "0.5", "1.25", "4", "0.25", "1e-1", "2."])), ("var", r.choice(vs + ["pi"])), ("var", r.choice(vs))])
    k = r.choice(["+", "-", "*", "/", "**", "neg", "neg", "call", "imp", "+", "*"])
    if k == "neg":
        return ("neg", tree(r, n - 1, vs))
    if k == "call":
        f = r.choice(sorted(pytk.FUN))
        return ("call", f, [tree(r, n - 1 - i, vs) for i in range(pytk.FUN[f])])
    if k == "imp":
        return ("imp", r.choice(["2", "0.5", "3."]), tree(r, n - 2, vs))
    if k == "**":
        b = tree(r, n - 2, vs)
        return ("**", ("call", "abs", [b]) if b[0] == "imp" else b, tree(r, n - 2, vs) if r.random() < .3 else ("num", r.choice(["2", "3"])))
    if k == "/":
        return ("/", tree(r, n - 1, vs), r.choice([("num", "2"), ("num", "4"), ("var", "pi"), ("var", r.choice(vs))]))
    return (k, tree(r, n - 1 - r.randrange(2), vs), tree(r, n - 1 - r.randrange(2), vs))


FIXED = ["-a**2", "-2**a", "a**2**b", "a**-b", "-a*b", "2*-a", "a--b", "a-b-c", "a/b/c", "a/b*c", "a*b/c", "a-(b-c)", "-(a+b)", "-a-b", "a - b + c", "a+b*c", "(a+b)*c", "2a", "2pi", "-3pi/4", "pi/2", "3pi/4", "-2a", "2(a+b)",
         "0.5max(a,b)", "max(a, -b)", "min(a+1,b)", "abs(-a)", "floor(a/2)", "ceil(a)", "round(2*a)", "-max(a,b)**2", "1e-2*a", "1.5E+1*a", "--a", "a*-b", "a/-b", "-a/-b", "5-2", "a-2", "a -2", "2*a**2*b", "a**2*b**2", "-0.5",
         "(((a)))", "a_1+b2", "max(max(a,b),c)", "a**b**c", "(a**b)**c", "2**-1", "a*2-3", "-1**2", "0.25", "3.", "e+pi"]


def expr_case(name, es):
    cmds = [{"op": {"type": r, "params": [e]}, "args": [reg("q", 0)]} for r, e in zip(itertools.cycle(["Rz", "Rx"]), es)]
    add_dec(name, circ(cmds, [reg("q", 0)], []))


for i, e in enumerate(FIXED):
    expr_case(f"expr-{i}", [e])
for s in range(120 if Q else 3000):
    r = random.Random(f"c12e/{SEED}/{s}")
    expr_case(f"rexpr{s}", [show(tree(r, r.choice([2, 3, 3, 4]), ["a", "b", "c"]), r) for _ in range(r.choice([1, 2]))])


# ---------------------------------------------------------------- circuits
def var(i):
    return {"type": "term", "input": {"type": "var", "term": {"type": "bit", "var": {"index": i}}}}


def clexpr(r, bits):
    """an expression command over some bits"""
    op = r.choice(["BitAnd", "BitOr", "BitXor", "BitEq", "BitNot", "BitAnd", "BitXor"])
    n = 1 if op == "BitNot" else 2
    kind = r.random()
    args = r.sample(bits, min(len(bits), r.choice([2, 3, 3, 3])))
    ids = list(range(len(args)))
    if kind > .45:
        r.shuffle(ids)
    posn = [[v, i] for v, i in zip(ids, range(len(args)))]
    if kind <= .45 and len(args) > n:
        # the form that becomes a plain operation, and forms which differ from it in one respect
        x, extra, out, pos, vs = r.random(), 0, n, list(range(n + 1)), list(range(n))
        if x < .15:
            out = r.randrange(n)
        elif x < .25 and len(args) > n + 1:
            extra, out = 1, r.choice([n, n + 1])
        elif x < .35:
            r.shuffle(pos)
        elif x < .45:
            vs = [r.randrange(n + 1) for _ in range(n)]
        args = args[:n + 1 + extra]
        pos += range(len(pos), len(args))
        return {"type": "ClExpr", "expr": {"bit_posn": [[v, i] for i, v in enumerate(pos)], "reg_posn": [], "expr": {"op": op, "args": [var(i) for i in vs]}, "output_posn": [out]}}, args

    def ar(d):
        x = r.random()
        if x < .2:
            return {"type": "term", "input": {"type": "int", "term": r.randrange(2)}}
        if x < .4 and d:
            o = r.choice(["BitAnd", "BitOr", "BitXor", "BitNot", "BitNeq", "BitZero", "BitOne"])
            return {"type": "expr", "input": {"op": o, "args": [ar(d - 1) for _ in range({"BitNot": 1, "BitZero": 0, "BitOne": 0}.get(o, 2))]}}
        return var(r.randrange(len(args)))
    return {"type": "ClExpr", "expr": {"bit_posn": posn, "reg_posn": [], "expr": {"op": op, "args": [ar(2) for _ in range(n)]}, "output_posn": [r.randrange(len(args))]}}, args


def random_cmd(r, qs, bs, depth, vs):
    x = r.random()
    if x < .55 or not bs:
        g = r.choice([g for g in pytk.TABLE if pytk.NQ[g] <= len(qs)])
        op = {"type": g}
        if pytk.NP[g]:
            op["params"] = [show(tree(r, r.choice([0, 0, 1, 2]), vs), r) if vs else r.choice(["0.5", "0.25", "1.125"]) for _ in range(pytk.NP[g])]
        return {"op": op, "args": r.sample(qs, pytk.NQ[g])}
    if x < .67:
        return {"op": {"type": "Measure"}, "args": [r.choice(qs), r.choice(bs)]}
    if x < .7:
        return {"op": {"type": "Reset"}, "args": [r.choice(qs)]}
    if x < .75:
        return {"op": {"type": "Barrier", "signature": []}, "args": r.sample(qs, r.randrange(1, len(qs) + 1)) + r.sample(bs, r.randrange(0, len(bs) + 1))}
    if x < .8:
        a = r.sample(bs, r.randrange(1, len(bs) + 1))
        return {"op": {"type": "SetBits", "classical": {"values": [r.random() < .5 for _ in a]}}, "args": a}
    if x < .84 and len(bs) > 1:
        return {"op": {"type": "CopyBits", "classical": {"n_i": 1}}, "args": r.sample(bs, 2)}
    if x < .92 and len(bs) > 1:
        op, a = clexpr(r, bs)
        return {"op": op, "args": a}
    if x < .96:
        k = r.randrange(1, len(bs) + 1)
        c = r.sample(bs, k)
        g = r.choice([g for g in pytk.TABLE if pytk.NQ[g] <= len(qs) and not pytk.NP[g]])
        return {"op": {"type": "Conditional", "conditional": {"op": {"type": g}, "width": k, "value": r.randrange(2 ** k)}}, "args": c + r.sample(qs, pytk.NQ[g])}
    if depth:
        nq, nb = r.randrange(1, len(qs) + 1), r.randrange(0, len(bs) + 1)
        a, b = r.sample(qs, nq), r.sample(bs, nb)
        iq, ib = [reg("q", i) for i in range(nq)], [reg("c", i) for i in range(nb)]
        perm = list(range(nq))
        if r.random() < .4:
            r.shuffle(perm)
        inner = circ([random_cmd(r, iq, ib, 0, []) for _ in range(r.randrange(1, 4))], iq, ib, perm)
        return {"op": {"type": "CircBox", "box": {"type": "CircBox", "id": "00000000-0000-0000-0000-000000000000", "circuit": inner}}, "args": a + b}
    return {"op": {"type": "H"}, "args": [r.choice(qs)]}


def fix_sig(c):
    if c["op"]["type"] == "Barrier":
        c["op"]["signature"] = ["Q" if a[0] in ("q", "w") else "B" for a in c["args"]]
    if c["op"]["type"] == "CircBox":
        for x in c["op"]["box"]["circuit"]["commands"]:
            fix_sig(x)
    return c


def random_circ(r, n, vs, nb=None):
    nq = r.choice([1, 2, 2, 3, 3])
    qs = [reg(r.choice(["q", "q", "w"]), i) for i in range(nq)]
    bs = [reg(r.choice(["c", "c", "d"]), i) for i in range(r.choice([0, 1, 2, 3]) if nb is None else nb)]
    perm = list(range(nq))
    if r.random() < .4:
        r.shuffle(perm)
    return circ([fix_sig(random_cmd(r, qs, bs, 1, vs)) for _ in range(n)], qs, bs, perm)


for g in pytk.TABLE:
    r = random.Random(g)
    k = pytk.NQ[g]
    qs = [reg("q", i) for i in range(k)]
    for t, pl in enumerate([list(range(k))] + ([list(range(k))[::-1]] if k > 1 else [])):
        op = {"type": g}
        if pytk.NP[g]:
            op["params"] = ["a", "b", "c"][:pytk.NP[g]]
        add_dec(f"gate-{g}-{t}", circ([{"op": op, "args": [qs[i] for i in pl]}], qs, []))
for s in range(150 if Q else 2500):
    r = random.Random(f"c12c/{SEED}/{s}")
    add_dec(f"circ{s}", random_circ(r, r.choice([4, 6, 8]), ["a", "b"]))
for s in range(80 if Q else 1500):
    r = random.Random(f"c12b/{SEED}/{s}")
    j = random_circ(r, 3, [], nb=3)
    for i in range(r.randrange(2, 6)):
        op, a = clexpr(r, j["bits"])
        j["commands"].insert(r.randrange(len(j["commands"]) + 1), {"op": op, "args": a})
    add_dec(f"bits{s}", j)

# a wanted signature: fewer inputs or outputs than registers, any order of kinds, parameters as rotations or floats, named or in order of appearance
for s in range(150 if Q else 2000):
    r = random.Random(f"c12l/{SEED}/{s}")
    j = random_circ(r, r.choice([4, 6, 8]), ["a", "b", "c"][:r.randint(1, 3)])
    nq, nb = len(j["qubits"]), len(j["bits"])
    lin = list("q" * r.choice([nq, r.randint(0, nq)]) + "".join(r.choice("bt") for _ in range(r.randint(0, nb))) + "".join(r.choice("rf") for _ in range(r.randint(0, 3))))
    r.shuffle(lin)
    lout = list("q" * r.choice([nq, r.randint(0, nq)]) + "".join(r.choice("bt") for _ in range(r.choice([nb, r.randint(0, nb)]))))
    r.shuffle(lout)
    names = r.sample(["a", "b", "c", "z"], r.choice([0, 0, 1, 2]))
    lay = ("".join(lin), "".join(lout))
    ref = pytk.read(j, params=names, layout=lay)[0]
    for q in (True, False):
        ck.add(f"layout{s}{'' if q else '-plain'}", {"pytket": j, "qsystem": q, "layout": list(lay), "names": names}, {"decode": []}, O, before=ref)


# ---------------------------------------------------------------- encoding
def signature(j):
    n = next(x for x in j["nodes"] if x["op"] == "FuncDefn" and x["name"] == "main")
    b = n["signature"]["body"] if "body" in n["signature"] else n["signature"]
    return b["input"], b["output"]


def judge_enc(ck, c, pipe, r, o, jobs, idx):
    j = o["info"][0]["pytket"]
    try:
        names = pytk.param_names(j)
    except ValueError as e:
        ck.alarm(f"{c.name}/{pipe}", f"the encoded circuit contains an unreadable expression: {e}", {"steps": c.pipes[pipe], "src": c.src, "circuit": j})
        return
    ins, outs = signature(r["before"])
    kind = [("q" if t["t"] == "Q" else "b" if t["t"] == "Sum" or t.get("id") == "bool" else "p") for t in ins]
    npar = kind.count("p")
    want = [f"f{i}" for i in range(npar)]
    bad = [x for x in names if x not in want]
    if bad:
        ck.alarm(f"{c.name}/{pipe}", f"the encoded circuit mentions unknown variables {bad}", {"steps": c.pipes[pipe], "src": c.src, "circuit": j})
        return
    nout_q = sum(t["t"] == "Q" for t in outs)
    nout_b = len(outs) - nout_q
    try:
        # the order in which the bits are returned is not part of a serial circuit: some assignment of registers must be right
        refs = [pytk.read(j, nin=(kind.count("q"), kind.count("b")), params=want, outs=(nout_q, list(b)))[0] for b in itertools.product(j["bits"], repeat=nout_b)]
    except pytk.Unreadable:
        ck.extra["opaque_boxes"] = ck.extra.get("opaque_boxes", 0) + 1
        return
    if not refs:
        ck.alarm(f"{c.name}/{pipe}", "the encoded circuit has fewer bits than the program returns", {"steps": c.pipes[pipe], "src": c.src, "circuit": j})
    elif len(refs) == 1:
        jobs.append((idx, pipe, r["before"], refs[0], c.opts, ck.case_limit, False))
    else:
        multi.append((c, pipe, r["before"], refs, j))


def work_multi(x):
    before, refs, opts = x
    res = None
    for ref in refs:
        res = common._work((0, "", before, ref, opts, ck.case_limit, False))
        if res[2] != "diff":
            return res
    return res


multi = []
PURE = dict(g1=4, rot=4, g2=3, crz=1, ccx=.5, reset=.5, alloc=.7, free=.3)
ENC = {"encode": [{"t": "pytket_encode"}]}
NAT = dict(nat=5, g1=1, g2=1, crz=.5, rot=1, reset=.5, rotx=2, float=4, floatx=2)
for s in range(150 if Q else 2500):
    j = Gen(f"c12n/{SEED}/{s}", [PURE, NAT][s % 2], maxq=4, native=s % 4 > 1, consts=(0.25, 0.5, -1.5, 1.0, 3.141592653589793, -0.7853981633974483, 2.0)).program(nq=1 + s % 3, copy=[[ROT], [], [ROT, ROT], [F64, ROT], [F64]][s % 5], size=9, outs=False)
    ck.add(f"enc{s}", {"hugr": j}, ENC, O, judge=judge_enc)
for s in range(100 if Q else 1500):
    ck.add(f"enca{s}", {"hugr": angles(f"c12a/{SEED}/{s}", 3 + s % 2, native=s % 3 == 0)}, ENC, O, judge=judge_enc)
BITS = dict(g1=3, rot=1, g2=2, meas=2, reset=.5, alloc=.7, tbool=3, measfree=.5, free=.3, natmeas=.5)
for s in range(60 if Q else 1000):
    j = Gen(f"c12m/{SEED}/{s}", BITS, maxq=3, maxmeas=3).program(nq=1 + s % 2, copy=[[TBOOL], [BOOL], [TBOOL, BOOL], [TBOOL, ROT]][s % 4], size=7, outs="few")
    ck.add(f"encb{s}", {"hugr": j}, ENC, O, judge=judge_enc)


def bad_load(c, r):
    w = r.get("load_err") or r.get("load_panic") or r.get("valid")
    ck.alarm(c.name + "/decode", f"a valid circuit is not decoded: {w}"[:600], {"steps": [], "src": c.src}) if w and "pytket" in c.src else Check.bad_load(ck, c, r)


ck.bad_load = bad_load
ck.run_cases()
for (c, pipe, before, refs, j), r in zip(multi, common.pmap(work_multi, [(m[2], m[3], m[0].opts) for m in multi], 3 * ck.case_limit, ck.deadline, lambda r: r[2] == "diff")):
    _, _, status, why, rep, st = r or (0, 0, "inconclusive", "time limit (stopped)", None, {})
    ck.nprog += 1
    for k, v in st.items():
        ck.tot[k] = ck.tot.get(k, 0) + v
    if status == "diff":
        ck.alarm(f"{c.name}/{pipe}", "no assignment of bit registers to the outputs is right: " + why, dict(rep, steps=c.pipes[pipe], src=c.src, circuit=j))
    elif status != "equal":
        (ck.soft if any(x in why for x in SOFT) else ck.incon).append((f"{c.name}/{pipe}", why))
ck.finish()
