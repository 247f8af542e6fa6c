import copy
import itertools
import random
import re
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

Q = TIER == "quick"
ck = Check("C22", ["CircuitHash::circuit_hash, hash_node, hashable_op (tket/src/circuit/hash.rs)", "impl PartialEq for Circuit (tket/src/circuit.rs)"],
           "all circuits of <=2 (thorough 3) gates out of 8 on two qubits (every pair with the same hash is compared); random programs (quick 220, thorough 2200) with up to 10 single-place changes each (operation, constant, "
           "tag, wiring, callee, case order, branch targets, array kind): every changed program with the same hash is compared; construction order shuffled (3 per program)",
           SEM)
ENTRY = {"t": "entry", "name": "main"}
PARTIAL = re.compile(r"i(div|mod)[a-z]*_[us]$")  # fail on some inputs: a dead one may be left out of the hash


def shuffled(j, r):
    """the same program, its nodes numbered differently"""
    kids = {}
    for i, n in enumerate(j["nodes"]):
        if i:
            kids.setdefault(n["parent"], []).append(i)
    order = []

    def go(i):
        order.append(i)
        k = list(kids.get(i, []))
        if j["nodes"][i]["op"] in ("FuncDefn", "DFG", "Case", "DataflowBlock", "TailLoop"):
            h, t = k[:2], k[2:]
            r.shuffle(t)
            k = h + t
        for c in k:
            go(c)
    go(0)
    new = {o: i for i, o in enumerate(order)}
    out = dict(j, nodes=[dict(j["nodes"][o], parent=new[j["nodes"][o]["parent"]]) for o in order],
               edges=[[[new[a[0]], a[1]], [new[b[0]], b[1]]] for a, b in j["edges"]], metadata=None, entrypoint=new[j.get("entrypoint", 0)])
    r.shuffle(out["edges"])
    return out


def port_types(n):
    s = n.get("signature")
    if n["op"] == "Input":
        return [], n["types"]
    if n["op"] == "Output":
        return n["types"], []
    if n["op"] in ("Extension", "DFG") and s:
        return s["input"], s["output"]
    return None, None


def in_main(j, i):
    """is the node part of the hashed function, or a definition at module level"""
    N = j["nodes"]
    while N[i]["op"] != "FuncDefn" and i != 0:
        i = N[i]["parent"]
    return N[i].get("name", "main") == "main"


def mutate(j, r):
    """one random change of one place in the entry function; None if it does not apply"""
    j = copy.deepcopy(j)
    N = j["nodes"]
    M = [n for i, n in enumerate(N) if in_main(j, i)]
    E = [e for e in j["edges"] if in_main(j, e[1][0])]
    k = r.choice(["gate", "const", "tag", "swap", "swap", "source", "callee", "cases", "succ", "args", "order"])
    if k == "gate":
        c = [n for n in M if n["op"] == "Extension" and n["extension"] in ("tket.quantum", "tket.bool", "logic", "arithmetic.int", "arithmetic.float", "tket.rotation")]
        if not c:
            return None
        n = r.choice(c)
        ops = [o for o, v in sigs()[n["extension"]]["ops"].items() if o not in (n["name"], "ipow") and not PARTIAL.match(o) and v.get("body") == sigs()[n["extension"]]["ops"].get(n["name"], {}).get("body") and v.get("body")]
        if not ops:
            return None
        n["name"] = r.choice(ops)
    elif k == "const":
        c = [n for n in M if n["op"] == "Const"]
        if not c:
            return None
        hit = []

        def walk(v, parent, key):
            if isinstance(v, dict):
                if v.get("v") == "Sum" and isinstance(v.get("typ"), dict) and v["typ"].get("s") == "Unit":
                    hit.append((v, "tag"))
                for a, b in v.items():
                    if a not in ("typ", "type", "ty", "signature"):
                        walk(b, v, a)
            elif isinstance(v, list):
                for i, b in enumerate(v):
                    walk(b, v, i)
            elif isinstance(v, bool) or isinstance(v, (int, float)) and key in ("value", "half_turns", "v") or isinstance(v, int) and key == "v":
                hit.append((parent, key))
        for n in c:
            walk(n["v"], n, "v")
        if not hit:
            return None
        p, a = r.choice(hit)
        v = p[a]
        p[a] = (1 - v if a == "tag" else (not v) if isinstance(v, bool) else (v + 1) if isinstance(v, int) else v + .5)
    elif k == "tag":
        c = [n for n in M if n["op"] == "Tag" and len(n["variants"]) > 1]
        if not c:
            return None
        n = r.choice(c)
        t = [i for i, v in enumerate(n["variants"]) if i != n["tag"] and v == n["variants"][n["tag"]]]
        if not t:
            return None
        n["tag"] = r.choice(t)
    elif k == "swap":
        by = {}
        for e in E:
            t = port_types(N[e[1][0]])[0]
            if t and e[1][1] is not None and e[1][1] < len(t):
                by.setdefault((N[e[1][0]]["parent"] if r.random() < .2 else e[1][0], json.dumps(t[e[1][1]])), []).append(e)
        c = [v for v in by.values() if len(v) > 1]
        if not c:
            return None
        a, b = r.sample(r.choice(c), 2)
        a[0], b[0] = b[0], a[0]
    elif k == "source":
        outs = {}
        for i, n in enumerate(N):
            t = port_types(n)[1]
            for p, x in enumerate(t or []):
                if not linear(x):
                    outs.setdefault((n["parent"], json.dumps(x)), []).append([i, p])
        c = []
        for e in E:
            t = port_types(N[e[1][0]])[0]
            if t and e[1][1] is not None and e[1][1] < len(t):
                o = [x for x in outs.get((N[e[1][0]]["parent"], json.dumps(t[e[1][1]])), []) if x != e[0]]
                if o:
                    c.append((e, o))
        if not c:
            return None
        e, o = r.choice(c)
        e[0] = r.choice(o)
    elif k == "callee":
        fs = [i for i, n in enumerate(N) if n["op"] == "FuncDefn"]
        c = [(e, [f for f in fs if f != e[0][0] and N[f]["signature"] == N[e[0][0]]["signature"]]) for e in E if N[e[0][0]]["op"] == "FuncDefn"]
        c = [x for x in c if x[1]]
        if not c:
            return None
        e, o = r.choice(c)
        e[0] = [r.choice(o), 0]
    elif k == "cases":
        c = [i for i, n in enumerate(N) if in_main(j, i) and n["op"] == "Conditional"]
        if not c:
            return None
        cs = [i for i, n in enumerate(N) if in_main(j, i) and n["op"] == "Case" and n["parent"] == r.choice(c)]
        if len(cs) < 2 or N[cs[0]]["signature"] != N[cs[1]]["signature"]:
            return None
        a, b = cs[:2]
        for n in N:
            if n["op"] != "Case" and n["parent"] in (a, b):
                n["parent"] = a + b - n["parent"]
    elif k == "succ":
        c = {}
        for e in E:
            if N[e[0][0]]["op"] == "DataflowBlock":
                c.setdefault(e[0][0], []).append(e)
        c = [v for v in c.values() if len(v) > 1]
        if not c:
            return None
        a, b = r.choice(c)[:2]
        a[1], b[1] = b[1], a[1]
    elif k == "args":
        c = [n for n in M if n["op"] == "Extension" and n["args"] and n["args"][0].get("tya") == "BoundedNat" and n["extension"].startswith("arithmetic")]
        if not c:
            return None
        r.choice(c)["args"][0]["n"] = r.choice([5, 6])
    elif k == "order":
        c = [e for e in E if e[0][1] is None and N[e[0][0]]["op"] not in ("FuncDefn", "Const", "DataflowBlock")]
        if not c:
            return None
        j["edges"].remove(r.choice(c))
    return j


groups = []  # (name, [program json], same?)
G = [("H", [0]), ("T", [0]), ("X", [1]), ("CX", [0, 1]), ("CX", [1, 0]), ("CZ", [0, 1]), ("S", [1]), ("Rz", [0])]
if True:
    progs = []
    for n in range(0, 3 if Q else 4):
        for seq in itertools.product(range(len(G)), repeat=n):
            m = Module()
            f = m.main([QB, QB, ROT], [QB, QB])
            q = list(f.ins[:2])
            for g in seq:
                o, pl = G[g]
                for i, w in zip(pl, f.op("tket.quantum." + o, [q[i] for i in pl] + ([f.ins[2]] if o == "Rz" else []))):
                    q[i] = w
            f.out(q)
            progs.append(m.json())
    groups.append(("small", progs, 0))
FE = dict(ALL, arr=1.5, cond=1.2, cfg=1, call=1.5, calli=.7)
for s in range(220 if Q else 2200):
    r = random.Random(f"c22/{SEED}/{s}")
    j = Gen(f"c22/{SEED}/{s}", FE, maxq=3).program(nq=2, copy=[ROT, BOOL, INT(6)] if s % 2 else [], size=9, depth=2)
    ps = [j] + [shuffled(j, r) for _ in range(3)]
    for _ in range(10):
        x = mutate(j, r)
        if x is not None:
            ps.append(x)
    groups.append((f"rand{s}", ps, 4))


# values of the same shape that differ in content
def special(name, build):
    groups.append((name, [build(i) for i in range(2)], 0))


def sp_tag(i):
    m = Module()
    f = m.main([], [BOOL])
    f.out([f.tag(i, [], BOOL)])
    return m.json()


def sp_arr(i):
    m = Module()
    t = VARR(2, BOOL)
    f = m.main([], [t])
    f.out([f.load(c_arr([c_bool(True), c_bool(i == 0)], BOOL, "value_array"))])
    return m.json()


def sp_callee(i):
    m = Module()
    g = m.func("g", [QB], [QB])
    g.out(g.op("tket.quantum.H", g.ins))
    h = m.func("h", [QB], [QB])
    h.out(h.op("tket.quantum.X", h.ins))
    f = m.main([QB], [QB])
    f.out(f.call([g, h][i], f.ins))
    return m.json()


def sp_const_outer(i):
    m = Module()
    f = m.main([QB], [QB])
    d = f.dfg(f.ins, [QB])
    a = d.load(c_rot([.25, .5][i]), at_module=True)
    d.out(d.op("tket.quantum.Rz", [d.ins[0], a]))
    f.out(d.outs)
    return m.json()


def sp_ext_edge(i):
    """a region that uses a value of the surrounding region directly"""
    m = Module()
    f = m.main([QB, ROT, ROT], [QB])
    x = f.op("tket.rotation.radd", [f.ins[1], f.ins[1]])[0]
    y = f.op("tket.rotation.radd", [f.ins[2], f.ins[2]])[0]
    d = f.dfg([f.ins[0]], [QB])
    q = d.op("tket.quantum.Rz", [d.ins[0], [x, y][i]])
    d.out(q)
    f.order(x.n, d.n)
    f.order(y.n, d.n)
    f.out(d.outs)
    return m.json()


def sp_bell(i):
    """two entangled pairs of fresh qubits, paired up differently"""
    m = Module()
    f = m.main([], [QB] * 4)
    p = []
    for _ in range(2):
        a, b = f.op("tket.quantum.QAlloc", [])[0], f.op("tket.quantum.QAlloc", [])[0]
        p.append(f.op("tket.quantum.CX", [f.op("tket.quantum.H", [a])[0], b]))
    (a, b), (c, d) = p
    f.out([a, b, c, d] if i else [a, d, c, b])
    return m.json()


def sp_coins(i):
    """two measured fresh qubits, or one of them twice"""
    m = Module()
    f = m.main([], [BOOL, BOOL])
    b = [f.op("tket.bool.read", [f.op("tket.quantum.MeasureFree", [f.op("tket.quantum.H", f.op("tket.quantum.QAlloc", []))[0]])[0]])[0] for _ in range(2)]
    f.out([b[0], b[i]])
    return m.json()


for n, b in list(globals().items()):
    if n.startswith("sp_"):
        special(n[3:], b)

reqs = []
for name, ps, k in groups:
    for p in ps:
        reqs.append({"hugr": p, "pipes": {"h": [ENTRY, {"t": "hash"}]}})
rs = drv.run(reqs, NPROC)
it = iter(rs)
pairs = shuf = 0
for name, ps, k in groups:
    hs = []
    for i, p in enumerate(ps):
        r = next(it)
        o = r.get("out", {}).get("h", {})
        if "out" not in r:
            if i < max(k, 1) or k == 0:
                ck.bad_load(Case(f"{name}.{i}", {"hugr": p}, {}), r)
            hs.append(None)
        elif "ok" not in o:
            ck.alarm(f"{name}.{i}", f"hashing failed on a valid program: {o.get('err') or 'panic: ' + str(o.get('panic'))}"[:600], {"src": {"hugr": p}, "steps": [ENTRY, {"t": "hash"}]})
            hs.append(None)
        else:
            hs.append(o["info"][-1]["hash"])
    for i in range(1, k):
        shuf += 1
        if hs[0] and hs[i] and hs[i] != hs[0]:
            ck.alarm(f"{name}.{i}", "the same program built in a different order has a different hash", {"src": {"hugr": ps[0]}, "other": ps[i]})
    if k:
        pr = [(0, i) for i in range(k, len(ps))]
    else:
        pr = itertools.combinations(range(len(ps)), 2)
    for a, b in pr:
        pairs += 1
        if hs[a] and hs[a] == hs[b]:
            ck.add(f"{name}.{a}.{b}", {"hugr": ps[a]}, {"equal": []}, {"max_meas": 6}, before=ps[b])
print(pairs, "pairs,", len(ck.cases), "with equal hashes")
ck.extra.update(pairs_of_programs=pairs, pairs_with_equal_hash=len(ck.cases), shuffled_programs=shuf)
ck.run_cases()
ck.finish()
