import os
import random
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

E = "/repo/test_files/eccs/"
SETS = {"small": E + "small_eccs.json", "cxcx": E + "cx_cx_eccs.json", "hh": E + "h_h_eccs.json", "hrz": E + "h_rz_cxcomplete_ECC_set.json", "nam": E + "nam_4_2.json",
        "small.rwr": E + "small_eccs.rwr", "nam.rwr": E + "nam_4_2.rwr", "small+": E + "small_eccs.json+saved", "nam+": E + "nam_4_2.json+saved"}
Q = TIER == "quick"
ck = Check("C16", ["ECCRewriter::from_eccs, get_rewrites, save/load binary (tket/src/rewrite/ecc_rewriter.rs)", "EqCircClass and the ECC file reader (tket/src/optimiser/badger/)",
                   "PatternMatcher::find_matches, CircuitPattern, PatternMatch::to_rewrite (tket/src/portmatching/)", "CircuitRewrite::apply (tket/src/rewrite.rs)",
                   "RewriteStrategy implementations (tket/src/rewrite/strategy.rs)", "BadgerOptimiser::optimise, single thread and split (tket/src/optimiser/badger.rs)",
                   "circuit cost functions (tket/src/circuit/cost.rs)"],
           "circuits concatenated from the equivalence classes' own members and random gates (quick 240, thorough 2600; <=5 qubits, <=16 gates, symbolic and constant angles), 9 rewriters (JSON and binary): every offered "
           "rewrite (quick <=14 per circuit) applied alone; every result of 5 strategies; Badger with 5 strategies, queue sizes 1..100, at most 12 explored circuits, one thread or split into 2; classes on 3 to 5 wires of which the members use at most three (60 circuits, thorough 600): what a circuit visibly contains must be offered",
           SEM)


def members(path):
    d = json.load(open(path))
    out = []
    for k, v in (d[1] if isinstance(d, list) else d).items():
        out += v
    return out


MEM = {k: members(p) for k, p in SETS.items() if p.endswith(".json")}


def circuit(r, name, nq, size):
    m = Module()
    f = m.main([QB] * nq + [ROT, ROT], [QB] * nq)
    qs = list(f.ins[:nq])
    ps = list(f.ins[nq:])

    def angle():
        return r.choice(ps) if r.random() < .75 else f.rot(r.choice([.25, .5, 1., -.125]))

    def g(op, pl, extra=()):
        for i, w in zip(pl, f.op("tket.quantum." + op, [qs[i] for i in pl] + list(extra))):
            qs[i] = w
    mem = MEM[name.rstrip("+").split(".")[0]]
    n = 0
    while n < size:
        if r.random() < .7:
            meta, ops = r.choice(mem)
            if meta[0] > nq:
                continue
            pl = r.sample(range(nq), meta[0])
            env = {f"P{i}": angle() for i in range(meta[1])}
            for o, outs, ins in ops:
                if o == "add":
                    env[outs[0]] = f.op("tket.rotation.radd", [env[x] for x in ins])[0]
                    continue
                on = {"h": "H", "cx": "CX", "t": "T", "tdg": "Tdg", "x": "X", "rz": "Rz", "s": "S", "sdg": "Sdg", "z": "Z"}[o]
                g(on, [pl[int(x[1:])] for x in ins if x[0] == "Q"], [env[x] for x in ins if x[0] == "P"])
                n += 1
        else:
            o = r.choice(["H", "X", "T", "Tdg", "CX", "CX", "Rz", "Rz"])
            if o == "CX" and nq < 2:
                continue
            g(o, r.sample(range(nq), 2 if o == "CX" else 1), [angle()] if o == "Rz" else [])
            n += 1
    if r.random() < .3:
        r.shuffle(qs)
    f.out(qs)
    return m.json()


STRAT = ["cx", "rz", "greedy", "thr", "gamma"]


def gates(j):
    return sum(1 for n in j["nodes"] if n["op"] == "Extension" and n["extension"] == "tket.quantum")


def judge(self, c, pipe, r, o, jobs, i):
    before = r["before"]
    for info in o.get("info", []):
        for k, x in enumerate(info.get("rewrites", [])):
            key = f"{c.name}/{pipe}#{k}"
            if x["delta"] != x["ops_after"] - x["ops_before"]:
                # the node count is of nodes, not of operations: only a wrong sign of the gate count matters to users
                d = len(x["hugr"]["nodes"]) - len(before["nodes"])
                if d != x["delta"]:
                    self.alarm(key, f"the rewrite announces a change of {x['delta']} nodes, the circuit changed by {d}", {"steps": c.pipes[pipe], "src": c.src, "rewrite": k})
            jobs.append((i, f"{pipe}#{k}", before, x["hugr"], c.opts, self.case_limit, False))
        for k, x in enumerate(info.get("results", [])):
            key = f"{c.name}/{pipe}#{k}"
            if not x["delta_ok"]:
                self.alarm(key, f"the strategy announces cost {x['predicted']}, the circuit has cost {x['after']} (was {x['before']})", {"steps": c.pipes[pipe], "src": c.src, "result": k})
            jobs.append((i, f"{pipe}#{k}", before, x["hugr"], c.opts, self.case_limit, False))
        if info.get("worse"):
            self.alarm(f"{c.name}/{pipe}", f"the optimised circuit is more expensive: {info['cost_before']} -> {info['cost_after']}", {"steps": c.pipes[pipe], "src": c.src})
    if pipe[0] == "b":
        jobs.append((i, pipe, before, o["ok"], c.opts, self.case_limit, False))


names = sorted(SETS)
for s in range(240 if Q else 2600):
    r = random.Random(f"c16/{SEED}/{s}")
    name = names[s % len(names)]
    j = circuit(r, name, r.randint(3 if name in ("cxcx", "hh") else 1 if name[:5] == "small" else 2, 5), r.randint(3, 14))
    st = STRAT[s // len(names) % 5]
    e = SETS[name]
    ck.add(f"{name}{s}", {"hugr": j}, {
        "all": [{"t": "ecc_all", "ecc": e, "max": 14 if Q else 40}],
        "strat": [{"t": "strat", "ecc": e, "strat": st, "max": 8 if Q else 25}],
        "badger": [{"t": "badger", "ecc": e, "strat": st, "queue": [1, 3, 10, 100][s % 4], "count": 12, "timeout": 20, "split": False}],
        **({"bsplit": [{"t": "badger", "ecc": e, "strat": "cx", "threads": 2, "split": True, "queue": 10, "count": 12, "timeout": 4}]} if s % 6 == 0 else {}),
    }, judge=judge)
D = dict(g1=5, rot=3, g2=4, crz=.3, meas=.7, measfree=.4, reset=.5, alloc=.5, free=.3, bool=.6, float=.5, rotx=.7, tuple=.4, dfg=.5, cond=.5, call=.4, nodead=1)
for s in range(120 if Q else 1200):
    j = Gen(f"c16d/{SEED}/{s}", D, ordered=s % 2 == 1, maxq=4).program(nq=2, copy=[ROT, BOOL, F64], size=14, depth=s % 2)
    e = SETS[["nam", "hrz", "small"][s % 3]]
    st = STRAT[s % 5]
    ck.add(f"dyn{s}", {"hugr": inner_order(j)}, {"all": [{"t": "ecc_all", "ecc": e, "max": 14 if Q else 40}], "strat": [{"t": "strat", "ecc": e, "strat": st, "max": 8}],
        "badger": [{"t": "badger", "ecc": e, "strat": st, "queue": 10, "count": 8, "timeout": 20}],
        **({"bsplit": [{"t": "badger", "ecc": e, "strat": "cx", "threads": 2, "split": True, "queue": 10, "count": 12, "timeout": 4}]} if s % 6 == 0 else {}),
        }, {"max_meas": 6}, judge=judge)
# classes on three to five wires, of which members use any, at most three; a circuit that contains a member must be offered its rewrites
GATE = {"h": "H", "cx": "CX", "t": "T", "tdg": "Tdg", "x": "X"}
POOL = json.load(open(E + "T_Tdg_H_X_CX_complete_ECC_set.json"))[1]
KEYS = sorted(k for k, v in POOL.items() if len(v) > 1)
UNEVEN = [k for k in KEYS if [len(m[1]) for m in POOL[k]].count(min(len(m[1]) for m in POOL[k])) == 1]
USED = lambda mem: sorted({w for _, _, b in mem[1] for w in b})
connected = lambda mem: len({tuple(b) for _, _, b in mem[1] if len(b) > 1}) >= len(USED(mem)) - 1


def wide(seed, path):
    r = random.Random(seed)
    n = r.choice([3, 4, 4, 5])
    out = {}
    for i in range(r.randint(4, 12)):
        cl = POOL[r.choice(KEYS if r.random() < .4 else UNEVEN)]
        cl = r.sample(cl, min(len(cl), r.randint(2, 4)))
        if any(set(USED(m)) != set(USED(cl[0])) for m in cl) and r.random() < .7:
            continue
        wires = sorted({w for m in cl for w in USED(m)})
        to = dict(zip(wires, (f"Q{x}" for x in r.sample(range(n), len(wires)))))
        out[f"{i}_{len(cl)}"] = [[[n, *m[0][1:]], [[o, [to[w] for w in a], [to[w] for w in b]] for o, a, b in m[1]]] for m in cl]
    with open(path, "w") as f:
        json.dump([[], out], f)
    m = Module()
    f = m.main([QB] * n, [QB] * n)
    qs = list(f.ins)

    def put(ops, pl):
        for o, _, b in ops:
            ix = [pl[int(w[1:])] for w in b]
            for k, w in zip(ix, f.op("tket.quantum." + GATE[o], [qs[k] for k in ix])):
                qs[k] = w
    least = 0
    for i in range(r.randint(1, 3)):
        for _ in range(r.randint(0, 2)):
            put([["x", [], [f"Q{r.randrange(n)}"]]], range(n))
        cl = out[r.choice(sorted(out))] if out else []
        if cl:
            mem = r.choice(cl)
            pl = r.sample(range(n), n)
            put(mem[1], pl)
            small = min(len(c[1]) for c in cl)
            other = [c for c in cl if c is not mem and set(USED(c)) <= set(USED(mem)) and len(c[1]) == small]
            # the smallest member is offered for the others; two smallest: one of them is
            if len(mem[1]) > small and other and len([c for c in cl if len(c[1]) == small]) == 1 and mem[1] and connected(mem):
                least += 1
    f.out(qs)
    return m.json(), least


def found(least):
    def judge2(self, c, pipe, r, o, jobs, i):
        n = sum(len(x.get("rewrites", [])) for x in o.get("info", []))
        if pipe == "all" and n < min(least, 14):
            self.alarm(f"{c.name}/{pipe}", f"the circuit contains {least} members that can be replaced by their class's representative, but {n} rewrites are offered", {"steps": c.pipes[pipe], "src": c.src})
        judge(self, c, pipe, r, o, jobs, i)
    return judge2


os.makedirs(f"{drv.TGT}/eccs", exist_ok=True)
for s in range(60 if Q else 600):
    e = f"{drv.TGT}/eccs/{TIER}{SEED}_{s}.json"
    j, least = wide(f"c16w/{SEED}/{s}", e)
    ck.extra["members_to_be_found"] = ck.extra.get("members_to_be_found", 0) + least
    ck.add(f"wide{s}", {"hugr": j}, {"all": [{"t": "ecc_all", "ecc": e, "max": 14 if Q else 40}], "strat": [{"t": "strat", "ecc": e + ("+saved" if s % 3 == 0 else ""), "strat": STRAT[s % 5], "max": 8}]}, judge=found(least))
ck.run_cases()
ck.finish()
