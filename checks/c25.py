"""Circuit::commands: the commands of a region, in the order given and wired as their units say, are the region."""
import copy
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C25", ["CommandIterator, Command: inputs, outputs, linear_inputs/outputs, input/output_qubits, input/output_wires (tket/src/circuit/command.rs)", "Units, filters (tket/src/circuit/units.rs, units/filter.rs)",
                   "Circuit::commands, operations, units, qubits, qubit_count, num_operations (tket/src/circuit.rs)"],
           "every dataflow region (functions, blocks, loop bodies, cases, nested graphs) of random programs (quick 420, thorough 4200) of at most 16 statements, depth at most 2, with classical values, arrays of qubits, "
           "constants, calls, results and external calls; all inputs and outcomes symbolic", SEM)
Q = TIER == "quick"
O = {"max_meas": 6}
IGNORED = ("Input", "Output")


def static(n, port):
    if n["op"] == "Call":
        return port == len(n["instantiation"]["input"])
    return n["op"] == "LoadFunction"


class Bad(Exception):
    pass


def rebuild(j, regions):
    """the same program with every region put together again from its commands"""
    j = copy.deepcopy(j)
    ids = {m["vid"]: i for i, m in enumerate(j["metadata"]) if m and "vid" in m}
    N = j["nodes"]
    src = {}
    for a, b in j["edges"]:
        if b[1] is not None:
            src[tuple(b)] = tuple(a)
    edges = []
    inside = {}
    for r in regions:
        for k, n in enumerate(N):
            if k and n["parent"] == ids[r["parent"]]:
                inside[k] = r["parent"]
    for a, b in j["edges"]:
        if inside.get(a[0]) is not None and inside.get(a[0]) == inside.get(b[0]) and (b[1] is None or not static(N[b[0]], b[1])):
            continue
        edges.append([list(a), list(b)])
    for r in regions:
        if "panic" in r:
            raise Bad(f"panic: {r['panic']}")
        par = ids[r["parent"]]
        kids = {k for k in inside if inside[k] == r["parent"]}
        inp, out = ids[r["input"]], ids[r["output"]]
        cur, where = {}, {}  # linear unit -> its wire now; wire -> the unit it carries
        seen = {inp}

        def give(unit, node, port):
            if unit[0] == "l":
                if unit[1] in cur:
                    raise Bad(f"two values for linear unit {unit[1]}")
                cur[unit[1]] = (node, port)
            elif (ids[unit[1]], unit[2]) != (node, port):
                raise Bad(f"output {port} of node {node} is called wire {unit[1:]}")
            where[(node, port)] = unit

        def take(unit, node, port):
            if unit[0] == "l":
                if unit[1] not in cur:
                    raise Bad(f"linear unit {unit[1]} is used by node {node} but does not exist there")
                return cur.pop(unit[1])
            w = (ids[unit[1]], unit[2])
            if w[0] in kids and w[0] not in seen:
                raise Bad(f"node {node} comes before node {w[0]} whose result it uses")
            return w

        for u, p in r["units"]:
            give(u, inp, p)
        tys = N[inp]["types"]
        if r["qubit_count"] != sum(t == QB for t in tys) or [p for _, p in r["qubits"]] != [p for p, t in enumerate(tys) if t == QB] or any(where[(inp, p)] != ["l", u] for u, p in r["qubits"]):
            raise Bad(f"qubits of the region: {r['qubits']}")
        last = inp
        order = []
        for c in r["commands"]:
            n = ids[c["node"]]
            if n not in kids or n in seen or n in (inp, out):
                raise Bad(f"node {n} ({N[n]['op']}) listed twice or not of the region")
            order.append(n)
            for (u, p) in c["in"]:
                w = take(u, n, p)
                if w[0] in kids:
                    edges.append([list(w), [n, p]])
            for (u, p) in c["out"]:
                give(u, n, p)
            seen.add(n)
            edges.append([[last, None], [n, None]])
            last = n
            # the narrower views say the same
            for full, part, ty in (("in", "lin", None), ("out", "lout", None)):
                if [[u[1], p] for u, p in c[full] if u[0] == "l"] != c[part]:
                    raise Bad(f"linear units of node {n}: {c[part]}")
            li, lo = [u for u, _ in c["lin"]], [u for u, _ in c["lout"]]
            if any(a != b for a, b in zip(li, lo)):
                raise Bad(f"node {n} takes units {li} and returns {lo}")
            for full, part in (("in", "qin"), ("out", "qout")):
                if [x for x in c["l" + full] if is_qubit(N, src, n, x[1], full)] != c[part]:
                    raise Bad(f"qubits of node {n}: {c[part]}")
            if any((ids[a], b) != src.get((n, p)) for (u, a, b), (u2, p) in zip(c["inw"], c["in"])) or [u for u, *_ in c["inw"]] != [u for u, _ in c["in"]]:
                raise Bad(f"input wires of node {n}: {c['inw']}")
            if [[u, ids[a], b] for u, a, b in c["outw"]] != [[u, n, p] for u, p in c["out"]]:
                raise Bad(f"output wires of node {n}: {c['outw']}")
        edges.append([[last, None], [out, None]])
        for p in range(len(N[out]["types"])):
            w = src[(out, p)]
            u = where.get(w)
            if u is None:
                if w[0] in kids:
                    raise Bad(f"output {p} of the region comes from {w}, which no command has")
                continue
            if u[0] == "l":
                w = take(u, out, p)
            edges.append([list(w), [out, p]])
        for k in kids - seen - {inp, out}:
            if N[k]["op"] not in ("Const", "LoadConstant", "FuncDefn", "FuncDecl"):
                raise Bad(f"node {k} ({N[k]['op']}) is not listed")
        for k in kids - seen - {inp, out}:
            for (d, a) in src.items():
                if d[0] == k and a[0] in kids:
                    edges.append([list(a), list(d)])
        ops = [n for n in order if N[n]["op"] == "Extension" and (N[n]["extension"], N[n]["name"]) not in NOT_OPS]
        if [ids[x] for x in r["operations"]] != ops:
            raise Bad(f"operations {[ids[x] for x in r['operations']]} instead of {ops}")
        total = sum(n["op"] == "Extension" and (n["extension"], n["name"]) not in NOT_OPS for n in N)
        if r["num_operations"] != total:
            raise Bad(f"{r['num_operations']} operations counted instead of {total}")
    uniq = []
    seen_e = set()
    for e in edges:
        k = (tuple(e[0]), tuple(e[1]))
        if k not in seen_e:
            seen_e.add(k)
            uniq.append(e)
    j["edges"] = uniq
    return j


NOT_OPS = {("prelude", "Noop"), ("prelude", "MakeTuple"), ("prelude", "UnpackTuple")}


def value_types(n):
    op = n["op"]
    if op in ("Input",):
        return [], n["types"]
    if op == "Call":
        s = n["instantiation"]
        return s["input"], s["output"]
    if op in ("Extension", "DFG", "CFG"):
        return n["signature"]["input"], n["signature"]["output"]
    if op == "CallIndirect":
        return [None] + n["signature"]["input"], n["signature"]["output"]
    if op == "Conditional":
        return [None] + n["other_inputs"], n["outputs"]
    if op == "TailLoop":
        return n["just_inputs"] + n["rest"], n["just_outputs"] + n["rest"]
    if op == "Tag":
        return n["variants"][n["tag"]], [None]
    return [], []


def is_qubit(N, src, n, p, side):
    t = value_types(N[n])[0 if side == "in" else 1]
    return p < len(t) and t[p] == QB


def judge(ck, c, pipe, r, o, jobs, idx):
    d = next(x for x in o["info"] if "regions" in x)
    try:
        j = rebuild(d["hugr"], d["regions"])
    except Bad as e:
        ck.alarm(f"{c.name}/{pipe}", f"the commands do not describe the region: {e}", {"steps": c.pipes[pipe], "src": c.src})
        return
    ck.extra["regions"] = ck.extra.get("regions", 0) + len(d["regions"])
    ck.extra["commands"] = ck.extra.get("commands", 0) + sum(len(x["commands"]) for x in d["regions"])
    jobs.append((idx, pipe, d["hugr"], j, c.opts, ck.case_limit, False))


for s in range(240 if Q else 2400):
    j = Gen(f"c25/{SEED}/{s}", ALL, maxq=4, native=s % 4 == 0, ordered=True).program(nq=2, copy=[ROT, BOOL, F64], size=8 + s % 4, depth=s % 3, externs=True)
    ck.add(f"full{s}", {"hugr": j}, {"commands": [{"t": "commands"}]}, O, judge=judge)
CL = dict(g1=1, rot=2, bool=4, tbool=1, int=3, float=3, rotx=3, tuple=3, cond=.7, dfg=.7, call=.7, calli=.5, arr=2, meas=.5, result=1, extern=1)
for s in range(180 if Q else 1800):
    j = Gen(f"c25c/{SEED}/{s}", CL, maxq=3, ordered=True).program(nq=2, copy=[ROT, BOOL, F64, INT(6)], size=12 + s % 5, depth=s % 3, externs=True)
    ck.add(f"class{s}", {"hugr": j}, {"commands": [{"t": "commands"}]}, O, judge=judge)
ck.run_cases()
ck.finish()
