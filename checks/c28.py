"""The backtracking optimiser over every search space of a few states: costs, transitions and validity are unknowns; every path of the real optimiser
is executed and the solver decides the assertions for all costs on it."""
import itertools
import z3
from vlib import drv
drv.build()
from vlib.common import *
from vlib.symex import explore

Q = TIER == "quick"


class Space:
    def __init__(self, n, queue, best, mx, back=True, dup=None, invalid=(), edges=None):
        self.n, self.queue, self.best, self.max, self.dup, self.invalid = n, queue, best, mx, dup, invalid
        self.same = [dup[1] if dup and dup[0] == i else i for i in range(n)]
        self.c = [z3.Int(f"c{k}") for k in range(n)]
        self.e = {(i, j): z3.Bool(f"e{i}_{j}") for i in range(n) for j in range(n) if i != j and (back or j) and (edges is None or (i, j) in edges)}
        self.v = {i: z3.Bool(f"v{i}") for i in invalid}
        self.h = {i: z3.Bool(f"h{i}") for i in invalid}
        self.base = [z3.And(x >= 0, x <= n) for x in self.c]
        if dup and 0 not in dup:
            # two names of one state: they have the same successors
            self.base += [self.e[dup[0], j] == self.e[dup[1], j] for j in range(n) if j not in dup and (dup[0], j) in self.e]

    def name(self):
        return f"n{self.n}.q{self.queue}.best{self.best}.max{self.max}" + (".dup" if self.dup else "") + (".invalid" if self.invalid else "")

    def request(self, m):
        b = lambda x: z3.is_true(m.eval(x, True)) if m is not None else True
        return {"kind": "optimise", "queue": self.queue, "best": self.best, "max": self.max, "same": self.same,
                "cost": [m.eval(x, True).as_long() if m is not None else 0 for x in self.c],
                "edge": [[(i, j) in self.e and b(self.e[i, j]) for j in range(self.n)] for i in range(self.n)],
                "valid": [i not in self.v or b(self.v[i]) for i in range(self.n)],
                "hashed": [i not in self.h or b(self.h[i]) for i in range(self.n)]}

    def decisions(self, ans):
        D = []
        for e in ans["ev"]:
            if e[0] == "cmp":
                a, b = self.c[e[1]], self.c[e[2]]
                al = {-1: a < b, 0: a == b, 1: a > b}
                D.append((al[e[3]], [x for k, x in al.items() if k != e[3]]))
            elif e[0] == "next":
                for j in range(self.n):
                    x = self.e.get((e[1], j))
                    if x is not None:
                        D.append((x, [z3.Not(x)]) if j in e[2] else (z3.Not(x), [x]))
            else:
                x = (self.v if e[0] == "valid" else self.h).get(e[1])
                if x is not None:
                    D.append((x, [z3.Not(x)]) if e[2] else (z3.Not(x), [x]))
        return D

    def judge(self, ans):
        r, c, S = ans["res"], self.c, self.same
        ok = {}
        for e in ans["ev"]:
            if e[0] in ("valid", "hashed"):
                ok[e[1]] = ok.get(e[1], True) and e[2]
        if "panic" in r:
            return [(False, f"the optimiser panicked: {r['panic']}")]
        if not ok.get(0, False) or "none" in r:
            return [(("none" in r) == (not ok.get(0, False)), "a result exists exactly when the start is a valid state")]
        # what happened: expansions in order, and what was waiting before each of them
        exp, waiting, hist = [], [S[0]], []
        seen = {S[0]}
        out = []
        pend = [(set(waiting), None)]  # the waiting sets the queue went through, and what came in
        for e in ans["ev"]:
            if e[0] != "next":
                continue
            s = S[e[1]]
            if s in exp:
                out.append((False, f"state {s} was expanded twice"))
            if s not in seen:
                out.append((False, f"state {s} was expanded before it was found"))
            hist.append((s, set(pend[-1][0]), len(pend)))
            exp.append(s)
            pend.append((pend[-1][0] - {s}, None))
            for j in e[2]:
                if ok.get(j, False) and S[j] not in exp:
                    seen.add(S[j])
                    pend.append((pend[-1][0] | {S[j]}, S[j]))
        seen = {s for s in seen}
        big = self.queue >= self.n

        def dropped(t, upto):
            """when t came in for the last time, or when another state came in later, the queue was full of states that cost no more"""
            if big:
                return False
            o = []
            last = max((k for k, (_, x) in enumerate(pend[:upto]) if x == t), default=0)
            for k, (w, x) in enumerate(pend[:upto]):
                u = [x for x in w if x != t]
                if t in w and len(u) >= self.queue and (k == last or x not in (None, t)):
                    o.append(z3.PbGe([(c[x] <= c[t], 1) for x in u], self.queue))
            return z3.Or(o) if o else False
        for s, w, upto in hist:
            for t in sorted(w - {s}):
                out.append((z3.Or(c[s] <= c[t], dropped(t, upto)), f"state {s} was expanded while the cheaper state {t} was waiting"))
        if self.max is not None and len(exp) > self.max:
            out.append((False, f"{len(exp)} states were expanded instead of at most {self.max}"))
        if self.max is None or len(exp) < self.max:
            for t in sorted(seen - set(exp)):
                out.append((dropped(t, None), f"state {t} was found and never looked at"))
        b = S[r["best"]]
        if b not in exp:
            out.append((False, f"the result {b} was never visited"))
        for s in exp:
            out.append((c[b] <= c[s], f"the result {b} costs more than the visited state {s}"))
        N = r["n_best"]
        if (N is None) != (self.best is None):
            return out + [(False, "the n best states are returned exactly if asked for")]
        if N is not None:
            N = [S[x] for x in N]
            if len(set(N)) != len(N) or len(N) > self.best or not set(N) <= seen:
                return out + [(False, f"the best states are {N}")]
            for x, y in zip(N, N[1:]):
                out.append((c[x] <= c[y], f"the best states {N} are out of order"))
            for t in sorted(seen - set(N)):
                full = c[N[-1]] <= c[t] if len(N) == self.best and N else self.best == 0
                out.append((full if t in exp else z3.Or(full, dropped(t, None)), f"the best states {N} leave out state {t}"))
        return [(z3.simplify(f) if not isinstance(f, bool) else f, w) for f, w in out]


def work(job):
    args, kw, limit = job
    sp = Space(*args, **kw)
    st = {"paths": 0, "queries": 0, "solver_s": 0.0}
    bad, inc = [], []
    for kind, rep, what in explore(sp.base, sp.request, sp.decisions, sp.judge, (0, None), limit, st):
        (bad if kind == "violation" else inc).append((rep, what))
        if len(bad) >= 3:
            break
    return sp.name(), st, bad, inc


ck = Check("C28", ["BacktrackingOptimiser::optimise_with_options (tket/src/optimiser/backtracking.rs)", "StatePQueue::{new, push, push_unchecked, push_all_time_best, pop, pop_max, check_accepted, into_all_time_best} (tket/src/optimiser/pqueue.rs)",
                   "Optimiser, State, OptimiserOptions, OptimiserResult (tket/src/optimiser.rs)"],
           "search spaces of at most %d states: every set of transitions, every cost and every pattern of ties; queues of 1 to n states, 0 to 3 best states asked for, at most 1 to 4 states visited or no limit; states without cost or hash; "
           "two names of one state; no time limits" % (4 if Q else 5), ["the comparison of costs is a total order; equal hashes mean equal states"], level="other")
jobs = []
for q, b, m in itertools.product((1, 2, 3), (None, 0, 1, 2, 3), (None, 1, 2)):
    jobs.append(((3, q, b, m), {}, 600))
for q, b, m in ((1, 2, None), (2, 1, None), (2, 2, None), (2, 3, None), (2, 2, 3), (3, 2, None), (4, None, None), (4, 2, None), (4, 2, 3), (4, 3, 2)):
    jobs.append(((4, q, b, m), {"back": False}, 600))
for q, b in ((1, 1), (2, 2), (3, 2), (3, None)):
    jobs.append(((3, q, b, None), {"invalid": (0, 1, 2)}, 600))
    jobs.append(((4, q, b, None), {"dup": (3, 2), "back": False}, 600))
if not Q:
    for q, b, m in itertools.product((1, 2, 3, 4), (None, 1, 2, 3), (None, 3)):
        jobs.append(((4, q, b, m), {}, 3000))
    tree = {(0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 3), (2, 4), (3, 4), (4, 1)}
    for q, b in ((1, 2), (2, 2), (3, 2), (5, 3)):
        jobs.append(((5, q, b, None), {"edges": tree}, 3000))
jobs.sort(key=lambda j: -j[0][0])
for job, r in zip(jobs, pmap(work, jobs, 700 if Q else 3100, ck.deadline, lambda r: r[2])):
    if r is None:
        ck.incon.append((str(job[0]), "time limit"))
        continue
    name, st, bad, inc = r
    ck.nprog += 1
    for k, v in st.items():
        ck.tot[k] = ck.tot.get(k, 0) + v
    for rep, what in bad:
        ck.alarm(name, what, {"request": rep[0], "run": rep[1]})
    for _, what in inc:
        ck.incon.append((name, what))
    if len(ck.samples) < 8:
        ck.samples.append({"space": name, **st})
ck.finish({"technique": "symbolic execution of the compiled optimiser by re-execution with unknown costs; path feasibility and assertions decided by z3"})
