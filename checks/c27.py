"""ResourceScope: every linear port lies on one resource path, every copyable port names its wire; the region wired as these say is the region."""
import copy
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

Q = TIER == "quick"
ck = Check("C27", ["ResourceScope::try_from_circuit, get_circuit_unit(s_slice), get_port, get_position, get_resources, get_all_resources, get_copyable_wires, is_resource_start, resources_iter, resource_path_iter, any_reachable_from (tket/src/resource/scope.rs)",
                   "DefaultResourceFlow (tket/src/resource/flow.rs)", "CircuitUnit, Position, ResourceAllocator, PortMap (tket/src/resource/types.rs)"],
           "every dataflow region (functions, blocks, loop bodies, cases, nested graphs) of random programs (quick 330, thorough 3300) of at most 16 statements, depth at most 2, with classical values, arrays of qubits, constants, "
           "calls, results and external calls; 24 reachability questions per region (80 thorough); all inputs and outcomes symbolic", SEM)
O = {"max_meas": 6}


class Bad(Exception):
    pass


def static(n, port):
    if n["op"] == "Call":
        return port == len(n["instantiation"]["input"])
    return n["op"] in ("LoadConstant", "LoadFunction")


def inputs(j, k):
    n = j["nodes"][k]
    return sorted((b[1], tuple(a)) for a, b in j["edges"] if b[0] == k and b[1] is not None and not static(n, b[1]))


def rebuild(j, regions, ck):
    j0, j = j, copy.deepcopy(j)
    N = j["nodes"]
    ids = {m["vid"]: i for i, m in enumerate(j["metadata"]) if m and "vid" in m}
    drop, add = set(), []
    src = {tuple(b): tuple(a) for a, b in j["edges"] if b[1] is not None}
    dst = {}
    for a, b in j["edges"]:
        dst.setdefault(tuple(a), []).append(tuple(b))
    succ = {}
    for a, b in j["edges"]:
        if not (b[1] is not None and static(N[b[0]], b[1])):
            succ.setdefault(a[0], []).append(b[0])
    for r in regions:
        if "panic" in r:
            raise Bad(f"panic: {r['panic']}")
        if "refused" in r:
            ck.extra["refused regions"] = ck.extra.get("refused regions", 0) + 1
            continue
        par = ids[r["parent"]]
        kids = {k for k, n in enumerate(N) if k and n["parent"] == par and n["op"] not in ("Input", "Output")}
        if r["empty"] != (not kids):
            raise Bad(f"the region of {par} is said to be {'empty' if r['empty'] else 'non-empty'}")
        if r["empty"]:
            continue
        got = {ids[x["node"]]: x for x in r["nodes"]}
        if set(got) != kids or len(r["nodes"]) != len(kids):
            raise Bad(f"the scope of region {par} has nodes {sorted(got)} instead of {sorted(kids)}")
        on = {}
        for k, x in got.items():
            if "pos" not in x:
                continue
            if x["uin"] != x["in"]:
                raise Bad(f"node {k}: {x['uin']} / {x['in']}")
            for side, rs, ws in (("in", "rin", "win"), ("out", "rout", "wout")):
                if [u[1] for u in x[side] if u[0] == "l"] != x[rs] or [u[1:] for u in x[side] if u[0] == "w"] != x[ws]:
                    raise Bad(f"node {k}: {x[side]} but {x[rs]} and {x[ws]}")
                if len(set(x[rs])) != len(x[rs]):
                    raise Bad(f"node {k} has a resource twice: {x[rs]}")
            if sorted({p[0] for p in x["ports"]}) != sorted(set(x["rin"]) | set(x["rout"])) or len({p[0] for p in x["ports"]}) != len(x["ports"]):
                raise Bad(f"resources of node {k}: {x['ports']}")
            for rid, pi, po, st, fw, bw in x["ports"]:
                on.setdefault(rid, []).append((x["pos"], k))
                if pi != (x["in"].index(["l", rid]) if rid in x["rin"] else None) or po != (x["out"].index(["l", rid]) if rid in x["rout"] else None) or st != (pi is None):
                    raise Bad(f"node {k}: ports {pi}, {po}, start {st} for resource {rid} among {x['in']} -> {x['out']}")
            for p, u in enumerate(x["out"]):
                if u[0] == "w" and (ids[u[1]], u[2]) != (k, p):
                    raise Bad(f"output {p} of node {k} is called wire {u[1:]}")
        if sorted(r["resources"]) != sorted(on):
            raise Bad(f"resources of the region: {r['resources']} instead of {sorted(on)}")
        for rid, l in on.items():
            l.sort()
            path = [k for _, k in l]
            if len({p for p, _ in l}) != len(l):
                raise Bad(f"two operations on resource {rid} have the same position")
            for i, k in enumerate(path):
                x = got[k]
                _, pi, po, st, fw, bw = next(p for p in x["ports"] if p[0] == rid)
                if [ids[y] for y in fw] != path[i:] or [ids[y] for y in bw] != path[i::-1]:
                    raise Bad(f"path of resource {rid} from node {k}: {fw}, {bw} instead of {path}")
                if i and pi is None or i + 1 < len(path) and po is None:
                    raise Bad(f"resource {rid} starts or ends at node {k}, in the middle of its path {path}")
                if i:
                    q = next(p for p in got[path[i - 1]]["ports"] if p[0] == rid)
                    add.append([[path[i - 1], q[2]], [k, pi]])
                    drop.add((k, pi))
        for k, x in got.items():
            if "pos" not in x:
                continue
            for p, u in enumerate(x["in"]):
                w = src.get((k, p))
                if u[0] == "w":
                    drop.add((k, p))
                    add.append([[ids[u[1]], u[2]], [k, p]])
                elif (k, p) not in drop and w and w[0] in kids:
                    raise Bad(f"input {p} of node {k} is said to begin resource {u[1]}, it comes from node {w[0]}")
                if w and w[0] in got and "pos" in got[w[0]] and not got[w[0]]["pos"] < x["pos"]:
                    raise Bad(f"node {k} uses a result of node {w[0]} but is not after it")
        # reachability inside the scope
        down = {}

        def below(k):
            if k not in down:
                down[k] = {k}
                for m in succ.get(k, []):
                    if m in kids:
                        down[k] |= below(m)
            return down[k]
        for st, en, b in r["reach"]:
            ends = {(ids[n], p) for n, p in en}
            first = [b_ for n, p in st for b_ in dst.get((ids[n], p), []) if b_[0] in kids]
            seen = set(first)
            for t in first:
                for m in below(t[0]):
                    seen |= {tuple(e[1]) for e in j0["edges"] if e[0][0] == m}
            want = bool(seen & ends)
            ck.extra["reachability questions"] = ck.extra.get("reachability questions", 0) + 1
            if want != b:
                raise Bad(f"reachable from {st} to {en}: {b}")
        ck.extra["regions"] = ck.extra.get("regions", 0) + 1
        ck.extra["resources"] = ck.extra.get("resources", 0) + len(on)
    j["edges"] = [e for e in j["edges"] if tuple(e[1]) not in drop] + add
    return j


def judge(ck, c, pipe, r, o, jobs, idx):
    d = next(x for x in o["info"] if "regions" in x)
    try:
        j = rebuild(d["hugr"], d["regions"], ck)
    except Bad as e:
        ck.alarm(f"{c.name}/{pipe}", f"the resources do not describe the region: {e}", {"steps": c.pipes[pipe], "src": c.src})
        return
    jobs.append((idx, pipe, d["hugr"], j, c.opts, ck.case_limit, False))


for s in range(180 if Q else 1800):
    j = Gen(f"c27/{SEED}/{s}", ALL, maxq=4, native=s % 4 == 0, ordered=s % 2 == 0).program(nq=2, copy=[ROT, BOOL, F64], size=8 + s % 4, depth=s % 3, externs=True)
    ck.add(f"full{s}", {"hugr": inner_order(j)}, {"scope": [{"t": "scope", "seed": s, "tries": 24 if Q else 80}]}, O, judge=judge)
CL = dict(g1=2, g2=2, rot=2, bool=3, tbool=1, int=2, float=2, rotx=2, tuple=2, cond=.7, dfg=.7, call=.7, arr=2, meas=1.5, alloc=1, free=1, result=1, extern=1)
for s in range(150 if Q else 1500):
    j = Gen(f"c27c/{SEED}/{s}", CL, maxq=4, ordered=s % 2 == 0).program(nq=3, copy=[ROT, BOOL, F64], size=12 + s % 5, depth=s % 3, externs=True)
    ck.add(f"class{s}", {"hugr": inner_order(j)}, {"scope": [{"t": "scope", "seed": s, "tries": 24 if Q else 80}]}, O, judge=judge)
ck.run_cases()
ck.finish()
