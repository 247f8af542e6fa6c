import copy
import random
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C18", ["CopyableExpr::try_new, traverse_expression, sort_inputs (tket/src/subcircuit/expression.rs)", "ResourceScope: positions, any_reachable_from (tket/src/resource/scope.rs)"],
           "every copyable value of random programs (quick 240, thorough 2400, some with order edges between the operations; at most 12 statements, classical operations with several outputs, regions, calls, measurements between them), each with no boundary and with "
           "three random choices of excluded nodes and boundary inputs; all inputs and outcomes symbolic", SEM)
Q = TIER == "quick"
O = {"max_meas": 6, "ordered": False}


class G:
    """the dataflow graph of one region"""

    def __init__(self, j):
        self.j = j
        self.ids = {m["vid"]: i for i, m in enumerate(j["metadata"]) if m}
        self.vid = {i: v for v, i in self.ids.items()}
        self.src = {}
        self.dst = {}
        for a, b in j["edges"]:
            self.src[tuple(b)] = tuple(a)
            self.dst.setdefault(tuple(a), []).append(tuple(b))

    def kids(self, i):
        return [k for k, n in enumerate(self.j["nodes"]) if k and n["parent"] == i]


def static(n, port):
    """is this input of the node a static one"""
    if n["op"] == "Call":
        return port == len(n["instantiation"]["input"])
    return n["op"] in ("LoadConstant", "LoadFunction")


def clone(j, nodes, par):
    """copies of the nodes (with everything below them); only their inner edges and static inputs are connected"""
    new = {}
    for i in sorted(nodes):
        new[i] = len(j["nodes"])
        j["nodes"].append(dict(copy.deepcopy(j["nodes"][i]), parent=par))
    inner = set()
    work = list(nodes)
    while work:
        i = work.pop()
        for k, n in enumerate(j["nodes"][:]):
            if k and n["parent"] == i and k not in new and k != i:
                new[k] = len(j["nodes"])
                inner.add(k)
                j["nodes"].append(dict(copy.deepcopy(n), parent=new[i]))
                work.append(k)
    for a, b in list(j["edges"]):
        if b[0] in inner:
            j["edges"].append([[new.get(a[0], a[0]), a[1]], [new[b[0]], b[1]]])
        elif b[0] in new and static(j["nodes"][b[0]], b[1]):
            j["edges"].append([a, [new[b[0]], b[1]]])
    return new


def add_out(j, par, w, ty):
    """one more output of the function"""
    f = j["nodes"][par]
    out = [k for k, n in enumerate(j["nodes"]) if k and n["parent"] == par and n["op"] == "Output"][0]
    b = f["signature"]["body"]
    n = len(j["nodes"][out]["types"])
    j["nodes"][out]["types"] = j["nodes"][out]["types"] + [ty]
    b["output"] = b["output"] + [ty]
    for e in j["edges"]:
        if e[0][0] == out and e[0][1] is not None or e[1] == [out, n]:
            raise AssertionError
    j["edges"].append([list(w), [out, n]])


def convex(g, e):
    """is there no way from an output of the nodes back to a boundary input"""
    inc = {(g.ids[n], p) for l in e["incoming"] for n, p in l}
    nodes = {g.ids[n] for n in e["nodes"]}
    seen = set()
    work = [d for n in nodes for a, ds in g.dst.items() if a[0] == n for d in ds if d[0] not in nodes or d in inc]
    while work:
        d = work.pop()
        if d in inc:
            return False
        if d[0] in seen:
            continue
        seen.add(d[0])
        work += [x for a, ds in g.dst.items() if a[0] == d[0] for x in ds]
    return True


def expected(g, e, par):
    """nodes and boundary of the expression by the documentation (independent of the code under test)"""
    excl = {g.ids[n] for n in e["exclude"]}
    bound = {(g.ids[n], p) for n, p in e["boundary"]}
    kids = set(g.kids(par))

    def adm(n):
        return n in kids and n not in excl and g.j["nodes"][n]["op"] not in ("Input", "Output", "Const", "FuncDefn", "FuncDecl") and pure(g.j["nodes"][n])
    o = g.ids[e["of"][0]]
    if not adm(o):
        return None
    nodes, inc, work = set(), set(), [o]
    while work:
        n = work.pop()
        if n in nodes:
            continue
        nodes.add(n)
        for d, a in g.src.items():
            if d[0] == n and d[1] is not None and not static(g.j["nodes"][n], d[1]):
                if d in bound or not adm(a[0]):
                    inc.add(d)
                else:
                    work.append(a[0])
    return nodes, inc


def sig(n):
    op = n["op"]
    if op == "Call":
        s = n["instantiation"]
        return s["input"], s["output"]
    if op == "LoadConstant":
        return [], [n["datatype"]]
    if op == "LoadFunction":
        return [], [1]
    if op in ("Extension", "DFG", "CFG", "CallIndirect"):
        return n["signature"]["input"], n["signature"]["output"]
    if op == "Conditional":
        return [{"t": "Sum", "s": "General", "rows": n["sum_rows"]}] + n["other_inputs"], n["outputs"]
    if op == "TailLoop":
        return n["just_inputs"] + n["rest"], n["just_outputs"] + n["rest"]
    if op == "Tag":
        return n["variants"][n["tag"]], [{"t": "Sum", "s": "General", "rows": n["variants"]}]
    raise KeyError(op)


def pure(n):
    a, b = sig(n)
    return not any(t != 1 and linear(t) for t in list(a) + list(b))


def out_type(n, p):
    return sig(n)[1][p]


def judge(ck, c, pipe, r, o, jobs, idx):
    info = o["info"][-1]
    g = G(info["hugr"])
    par = g.j["entrypoint"]
    rnd = random.Random(c.name)
    es = list(info["exprs"])
    rnd.shuffle(es)
    done = 0
    for e in es:
        key = f"{c.name}/{pipe}"
        desc = {"steps": c.pipes[pipe], "src": c.src, "expression": e}
        ck.extra["expressions"] = ck.extra.get("expressions", 0) + 1
        if "panic" in e:
            ck.alarm(key, f"building the expression of {e['of']} panics: {e['panic']}"[:500], desc)
            continue
        x = expected(g, e, par)
        of = (g.ids[e["of"][0]], e["of"][1])
        if x is None:
            if "wire" not in e or e["wire"] != e["of"]:
                ck.alarm(key, f"the expression of {e['of']}, a value that no included operation makes, is {str(e)[:300]}", desc)
            continue
        nodes, inc = x
        d = {"nodes": [g.vid[n] for n in nodes], "incoming": [[(g.vid[n], p)] for n, p in inc]}
        if "err" in e:
            ck.extra["refused"] = ck.extra.get("refused", 0) + 1
            if convex(g, d) or "NotConvex" not in e["err"]:
                ck.alarm(key, f"the expression of {e['of']} is refused ({e['err']}) though it is convex", desc)
            continue
        if "wire" in e:
            ck.alarm(key, f"the expression of {e['of']} is a bare wire", desc)
            continue
        if not convex(g, d):
            ck.alarm(key, f"the expression of {e['of']} is not convex but was built", desc)
            continue
        unused = not g.dst.get(of)  # a boundary port must be connected: no subgraph is valid for an unused value
        if e["check"] and not unused:
            ck.alarm(key, f"the subgraph of {e['of']} is not valid: {e['check']}", desc)
        # the order of the inputs: given boundary inputs first, then those fed by excluded nodes, then others
        flat = [tuple(p) for l in e["incoming"] for p in l]
        bo, ex = [tuple(x) for x in e["boundary"]], e["exclude"]

        def rank(p):
            s = g.src[g.ids[p[0]], p[1]][0]
            return (0, bo.index(p)) if p in bo else (1, ex.index(g.vid[s])) if g.vid[s] in ex else (2, 0)
        if [rank(p) for p in flat] != sorted(rank(p) for p in flat):
            ck.alarm(key, f"the inputs of the expression of {e['of']} are in the order {flat}, not as documented", desc)
        if len(jobs_of.setdefault(c.name, [])) >= LIMIT:
            continue
        # run the expression next to the program: it must give the value
        a, b = copy.deepcopy(g.j), copy.deepcopy(g.j)
        ty = out_type(g.j["nodes"][of[0]], of[1])
        if ty == 1:
            continue
        try:
            own = [g.ids[n] for n in e["nodes"] if g.j["nodes"][g.ids[n]]["op"] != "Const"]
            new = clone(b, own, par)
            inn = {(g.ids[n], p) for n, p in flat}
            for n in own:
                for p in range(len(sig(b["nodes"][n])[0])):
                    s = g.src[n, p]
                    b["edges"].append([list(s) if (n, p) in inn else [new[s[0]], s[1]], [new[n], p]])
            res = [new[g.ids[e["output"][0]]], e["output"][1]]
        except KeyError as x:
            ck.alarm(key, f"the expression of {e['of']} is not closed: an input {x} comes from outside but is not one of its inputs", desc)
            continue
        add_out(a, par, of, ty)
        if out_type(b["nodes"][res[0]], res[1]) != ty:
            ck.alarm(key, f"the expression of {e['of']} has another type than the value", desc)
            continue
        add_out(b, par, res, ty)
        jobs_of[c.name].append(1)
        jobs.append((idx, f"{pipe}#{e['of']}", a, b, c.opts, ck.case_limit, False))


jobs_of = {}
LIMIT = 8 if Q else 30
CL = dict(tbool=2.5, bool=2, int=3, float=2, rotx=2, tuple=2.5, rot=2, meas=1.2, g1=1, g2=.5, dfg=.6, cond=.8, call=.8, calli=.3, loop=.2, cfg=.4)
for s in range(150 if Q else 1500):
    r = random.Random(f"c18/{SEED}/{s}")
    j = Gen(f"c18/{SEED}/{s}", CL, maxq=3).program(nq=2, copy=[[ROT, BOOL], [F64, INT(6)], [TBOOL, ROT, F64], [BOOL, BOOL]][s % 4], size=6 + s % 7, depth=1, outs=s % 3 > 0)
    ck.add(f"rand{s}", {"hugr": j, "entry": "main"}, {"expr": [{"t": "entry", "name": "main"}, {"t": "expr", "tries": 4, "seed": s + SEED * 7919}]}, O, judge=judge)


def around(k, l, back):
    """a value is used by a chain of k operations, after which (an order edge) a chain of l operations ends in a measurement, whose result is used with the value"""
    m = Module()
    f = m.main([QB, QB, ROT], [QB, QB, ROT, BOOL])
    q, p, r = f.ins
    x = f.op("tket.rotation.radd", [r, r])[0]
    q = f.op("tket.quantum.Rx", [q, x], ordered=not k)[0]
    for i in range(k):
        q = f.op("tket.quantum.H", [q], ordered=i == k - 1)[0]
    for i in range(l):
        p = f.op("tket.quantum.H", [p], ordered=not i)[0]
    p, b = f.op("tket.quantum.Measure", [p], ordered=not l)
    if back:
        y = f.op("tket.rotation.radd", [r, x])[0]
        q = f.op("tket.quantum.Rz", [q, y])[0]
    c, d = f.cond(b, [x], [ROT])
    c.out(c.ins)
    d.out(d.op("tket.rotation.radd", [d.ins[0], d.ins[0]]))
    f.out([q, p] + f.op("tket.rotation.radd", [x, c.outs[0]]) + [b])
    return m.json()


for k in range(6 if Q else 20):
    for l in range(3 if Q else 6):
        for back in (0, 1):
            ck.add(f"around.{k}.{l}.{back}", {"hugr": inner_order(around(k, l, back)), "entry": "main"}, {"expr": [{"t": "entry", "name": "main"}, {"t": "expr", "tries": 6, "seed": k}]}, O, judge=judge)
for s in range(90 if Q else 900):
    # operations that only order edges connect
    j = Gen(f"c18o/{SEED}/{s}", CL, maxq=3, ordered=True).program(nq=2, copy=[[ROT, BOOL], [F64, INT(6)], [TBOOL, ROT, F64], [BOOL, BOOL]][s % 4], size=6 + s % 7, depth=1, outs=s % 3 > 0)
    ck.add(f"order{s}", {"hugr": inner_order(j), "entry": "main"}, {"expr": [{"t": "entry", "name": "main"}, {"t": "expr", "tries": 4, "seed": s + SEED * 7919}]}, O, judge=judge)
ck.run_cases()
ck.finish()
