"""Rewrite strategies, Badger and chunk splitting with unknown operation costs: the real code runs on every path its cost comparisons can take; the
solver decides for all costs on the path that reported changes are the changes, nothing forbidden is returned and nothing allowed is missing."""
import itertools
import random
import z3
from vlib import drv
drv.build()
from vlib.common import *
from vlib.symex import explore
from vlib.fam import *

Q = TIER == "quick"
E = "/repo/test_files/eccs/"
SETS = {k: E + v for k, v in {"small": "small_eccs.json", "cxcx": "cx_cx_eccs.json", "hh": "h_h_eccs.json", "hrz": "h_rz_cxcomplete_ECC_set.json", "nam": "nam_4_2.json"}.items()}
GATE = {"h": "H", "cx": "CX", "t": "T", "tdg": "Tdg", "x": "X", "rz": "Rz", "s": "S", "sdg": "Sdg", "z": "Z"}


def members(path):
    d = json.load(open(path))
    return [c for v in (d[1] if isinstance(d, list) else d).values() for c in v]


MEM = {k: members(p) for k, p in SETS.items()}


def circuit(r, name, nq, size, consts=False):
    m = Module()
    f = m.main([QB] * nq + [ROT, ROT], [QB] * nq)
    qs, ps = list(f.ins[:nq]), list(f.ins[nq:])

    def g(op, pl, extra=()):
        for i, w in zip(pl, f.op("tket.quantum." + op, [qs[i] for i in pl] + list(extra))):
            qs[i] = w
    n = 0
    while n < size:
        if r.random() < .8:
            meta, ops = r.choice(MEM[name])
            if meta[0] > nq:
                continue
            pl = r.sample(range(nq), meta[0])
            env = {f"P{i}": f.rot(r.choice([.25, .5])) if consts and r.random() < .6 else r.choice(ps) for i in range(meta[1])}
            for o, outs, ins in ops:
                if o == "add":
                    env[outs[0]] = f.op("tket.rotation.radd", [env[x] for x in ins])[0]
                    continue
                g(GATE[o], [pl[int(x[1:])] for x in ins if x[0] == "Q"], [env[x] for x in ins if x[0] == "P"])
                n += 1
        else:
            o = r.choice(["H", "T", "CX"])
            if o == "CX" and nq < 2:
                continue
            g(o, r.sample(range(nq), 2 if o == "CX" else 1))
            n += 1
    f.out(qs)
    return m.json()


class Job:
    """unknowns: for each kind of operation a major and a minor cost"""

    def __init__(self, req, kinds, top=40):
        self.req, self.kinds = req, kinds
        self.n = len(kinds) + 1 + (req["kind"] == "split")
        self.x = [z3.Int(f"x{i}") for i in range(2 * self.n)]
        self.base = [z3.And(x >= 0, x <= top) for x in self.x]

    def request(self, m):
        return dict(self.req, kinds={k: i for i, k in enumerate(self.kinds)}, val=[m.eval(x, True).as_long() if m is not None else 1 for x in self.x])

    def lin(self, co):
        return z3.Sum([c * self.x[i] for i, c in co]) if co else z3.IntVal(0)

    def decisions(self, ans):
        D = []
        for e in ans["ev"]:
            a, b = self.lin(e[1][0]), self.lin(e[1][1])
            if e[0] == "lex":
                al = {-1: z3.Or(a < 0, z3.And(a == 0, b < 0)), 0: z3.And(a == 0, b == 0), 1: z3.Or(a > 0, z3.And(a == 0, b > 0))}
                D.append((al[e[2]], [v for k, v in al.items() if k != e[2]]))
            else:
                al = {-2: a <= -2, -1: a == -1, 0: a == 0, 1: a == 1, 2: a >= 2}
                t = max(-2, min(2, e[2]))
                D.append((al[t], [v for k, v in al.items() if k != t]))
        return D

    def cost(self, counts):
        """major and minor cost of that many operations of each kind"""
        return [z3.Sum([c * self.x[2 * k + i] for k, c in enumerate(counts)] + [z3.IntVal(0)]) for i in (0, 1)]

    def same(self, lin, d):
        return z3.And(self.lin(lin[0]) == d[0], self.lin(lin[1]) == d[1])

    def judge(self, ans):
        r = ans["res"]
        if "panic" in r:
            return [(False, f"panic: {r['panic']}")]
        return getattr(self, self.req["kind"])(r)

    def badger(self, r):
        le = lambda a, b: z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] <= b[1]))
        a, b = self.cost(r["before"]), self.cost(r["after"])
        out = [(r["valid"], "the optimised circuit is not valid"), (le(b, a), f"the optimised circuit costs more than the circuit: {r['before']} became {r['after']}")]
        # two circuits were looked at or more: the second is the cheapest that the first step offers
        for x in map(list, {tuple(x) for x in r["first"]}):
            out.append((le(b, self.cost(x)), f"one rewrite gives {x}, which is cheaper than the result {r['after']}"))
        return out

    def split(self, r):
        if r["err"]:
            return [(False, f"the chunks do not reassemble: {r['err']}")]
        out = [(r["whole"] == r["before"], "the reassembled circuit has other operations"),
               ([sum(x) for x in zip(*r["parts"])] == r["before"] if r["parts"] else sum(r["before"]) == 0, "the chunks have other operations than the circuit")]
        M = self.x[2 * (self.n - 1)]
        for p in r["parts"]:
            # (a constant stays with the operations that load it)
            if sum(p) > 1 and p[len(self.kinds)] < sum(p):
                out.append((self.cost(p)[0] <= M, f"a chunk of several operations {p} costs more than allowed"))
        return out

    def strategy(self, r):
        n = len(r["cand"])
        out = [(self.same(r["total"], self.cost(r["before"])), "the cost of the circuit is not the sum of the costs of its operations")]
        for k, x in enumerate(r["results"]):
            a, b = self.cost(r["before"]), self.cost(x["counts"])
            out.append((x["valid"], f"result {k} is not valid"))
            out.append((self.same(x["delta"], [b[0] - a[0], b[1] - a[1]]), f"result {k} reports a change of cost that is not the change: {r['before']} became {x['counts']}"))
        # which candidates are allowed, and what each makes of the circuit
        d = [[b - a for a, b in zip(self.cost(c["pre"]), self.cost(c["post"]))] for c in r["cand"]]
        ok = [x[0] <= 0 for x in d]
        ch = [[b - a for a, b in zip(c["pre"], c["post"])] for c in r["cand"]]
        got = [[b - a for a, b in zip(r["before"], x["counts"])] for x in r["results"]]
        if self.req["strat"] == "threshold":
            alt = []
            for A in itertools.combinations(range(n), len(got)):
                if sorted(ch[i] for i in A) == sorted(got):
                    alt.append(z3.And([ok[i] if i in A else z3.Not(ok[i]) for i in range(n)]))
            out.append((z3.Or(alt) if alt else False, "the results are not those of the rewrites that the threshold allows"))
            return out
        alt = []
        for A in itertools.permutations(range(n), len(got)):
            pred = []
            for i in range(len(A)):
                touched, tot = set(), [0] * len(r["before"])
                for k in A[i:]:
                    inv = set(r["cand"][k]["inv"])
                    if not touched & inv:
                        touched |= inv
                        tot = [a + b for a, b in zip(tot, ch[k])]
                pred.append(tot)
            if pred == got:
                asc = [z3.Or(d[i][0] < d[j][0], z3.And(d[i][0] == d[j][0], d[i][1] <= d[j][1])) for i, j in zip(A, A[1:])]
                alt.append(z3.And([ok[i] if i in A else z3.Not(ok[i]) for i in range(n)] + asc))
        out.append((z3.Or(alt) if alt else False, "the results are not the allowed rewrites, each followed by the dearer ones that do not overlap"))
        return out


def work(job):
    name, req, kinds, limit = job
    j = Job(req, kinds)
    st = {"paths": 0, "queries": 0, "solver_s": 0.0}
    bad, inc = [], []
    for kind, rep, what in explore(j.base, j.request, j.decisions, j.judge, (0, None), limit, st):
        (bad if kind == "violation" else inc).append((rep, what))
        if len(bad) >= 2:
            break
    return name, st, bad, inc


ck = Check("C29", ["ExhaustiveGreedyStrategy, ExhaustiveThresholdStrategy: apply_rewrites, circuit_cost, pre_rewrite_cost, post_rewrite_cost; StrategyCost::under_threshold (tket/src/rewrite/strategy.rs)",
                   "Circuit::circuit_cost, nodes_cost (tket/src/circuit.rs)", "CircuitChunks::split_with_cost (tket/src/passes/chunks.rs)", "BadgerOptimiser::optimise, single thread (tket/src/optimiser/badger.rs)",
                   "BacktrackingOptimiser (tket/src/optimiser/backtracking.rs)", "CircuitRewrite::{invalidation_set, subgraph, replacement, apply, apply_notrace} (tket/src/rewrite.rs)"],
           "circuits made of the members of five equivalence-class sets (at most 4 qubits, 10 gates), at most 4 candidate rewrites for a strategy, at most 3 explored circuits for Badger; every kind of operation with an unknown major and an unknown minor cost "
           "between 0 and 40; quick 60 strategy, 40 split and 24 Badger runs (thorough tenfold, and up to 5 candidates)", ["costs are added, subtracted and compared as the trait says (C17)"], level="other")
r = random.Random(SEED * 29 + 7)
jobs = []
big = 1 if Q else 10
for i in range(60 * big):
    s = ["small", "cxcx", "hh", "nam", "hrz"][i % 5]
    h = circuit(r, s, r.randint(2, 4), r.randint(3, 10))
    kinds = r.sample(["H", "CX", "T", "Rz", "X", "radd"], 4) if i % 4 else ["H", "CX", "Rz"]
    jobs.append((f"strategy.{s}.{i}", {"kind": "strategy", "hugr": h, "ecc": SETS[s], "strat": ["greedy", "threshold"][i // 5 % 2], "pick": r.sample(range(60), r.randint(2, 4 if Q else 5))}, kinds, 120 if Q else 1200))
for i in range(40 * big):
    s = ["nam", "hrz", "small"][i % 3]
    h = circuit(r, s, r.randint(1, 4), r.randint(2, 7), i % 2 == 0)
    jobs.append((f"split.{s}.{i}", {"kind": "split", "hugr": h, "bound": 4}, r.sample(["H", "CX", "T", "Rz"], 3), 120 if Q else 1200))
for i in range(24 * big):
    s = ["small", "cxcx", "hh", "nam", "hrz"][i % 5]
    h = circuit(r, s, r.randint(1, 3), r.randint(2, 6))
    jobs.append((f"badger.{s}.{i}", {"kind": "badger", "hugr": h, "ecc": SETS[s], "strat": ["greedy", "threshold"][i // 5 % 2], "few": 3, "queue": r.choice([1, 2, 20]), "max": r.choice([2, 3])},
                 r.sample(["H", "CX", "Rz", "T"], 2), 120 if Q else 1200))
for job, x in zip(jobs, pmap(work, jobs, 200 if Q else 1300, ck.deadline, lambda x: x[2])):
    if x is None:
        ck.incon.append((job[0], "time limit"))
        continue
    name, st, bad, inc = x
    ck.nprog += 1
    for k, v in st.items():
        ck.tot[k] = ck.tot.get(k, 0) + v
    for rep, what in bad:
        ck.alarm(name, what, {"request": rep[0], "run": rep[1]})
    for _, what in inc:
        ck.incon.append((name, what))
    if len(ck.samples) < 12:
        ck.samples.append({"run": name, **st})
ck.finish({"technique": "symbolic execution of the compiled code by re-execution with unknown costs; path feasibility and assertions decided by z3"})
