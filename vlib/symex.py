"""Symbolic execution by re-execution: code of /repo that is generic over its cost runs with costs that are unknowns (driver binary `symex`); the
answers it got are the path condition; the solver turns every answer round that can be turned round, until no path is left, and decides the assertion
over all values on every path."""
import json
import subprocess
import time
import z3
from .drv import ENV, BIN
SYM = BIN[:-3] + "symex"


class Runner:
    def __init__(self):
        self.p = None

    def run(self, reqs):
        """answers to a batch of requests (in order)"""
        out = []
        for k in range(0, len(reqs), 200):
            part = reqs[k:k + 200]
            if self.p is None:
                self.p = subprocess.Popen([SYM], env=ENV, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            for r in part:
                self.p.stdin.write(json.dumps(r) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if not line:
                    self.p.wait()
                    out.append({"ev": [], "res": {"panic": f"the process ended with {self.p.returncode}"}})
                    self.p = None
                    break
                out.append(json.loads(line))
            if self.p is None and len(out) % 200:
                rest = reqs[len(out):]
                return out + (self.run(rest) if rest else [])
        return out

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()


def explore(base, request, decisions, judge, first, limit, stats):
    """base: constraints on the unknowns; request(model) -> request; decisions(answer) -> [(taken constraint, [alternatives])];
    judge(answer) -> (formula that must hold on the path, or None, and what it says) list.  Yields violations (model request, answer, text)."""
    R = Runner()
    S = z3.Solver()
    S.add(base)
    todo = [first]
    t0 = time.time()
    try:
        while todo:
            pre, model = todo.pop()
            if time.time() - t0 > limit:
                yield ("limit", None, f"{len(todo)} branches left after {stats['paths']} paths")
                return
            req = request(model)
            ans = R.run([req])[0]
            stats["paths"] += 1
            D = decisions(ans)
            if len(D) < pre:
                yield ("limit", None, f"a run made {len(D)} decisions, {pre} were prescribed")
                return
            S.push()
            for k, (c, alts) in enumerate(D):
                if k >= pre:
                    for a in alts:
                        S.push()
                        S.add(a)
                        t = time.time()
                        q = S.check()
                        stats["solver_s"] += time.time() - t
                        stats["queries"] += 1
                        if q == z3.sat:
                            todo.append((k + 1, S.model()))
                        elif q != z3.unsat:
                            yield ("limit", None, f"solver: {q}")
                            return
                        S.pop()
                S.add(c)
            todo_f = [(f, what) for f, what in judge(ans) if f is not True]
            todo_f = [(z3.BoolVal(f) if isinstance(f, bool) else f, what) for f, what in todo_f]
            if todo_f:
                # all at once; one by one only to say what fails
                S.push()
                S.add(z3.Not(z3.And([f for f, _ in todo_f])))
                t = time.time()
                q = S.check()
                stats["solver_s"] += time.time() - t
                stats["queries"] += 1
                stats["assertions"] = stats.get("assertions", 0) + len(todo_f)
                if q == z3.sat:
                    # the counterexample, replayed
                    m = S.model()
                    what = next((w for f, w in todo_f if z3.is_false(m.eval(f, True))), todo_f[0][1])
                    req = request(m)
                    again = R.run([req])[0]
                    same = again["res"] == ans["res"]
                    yield ("violation" if same else "limit", (req, again), what if same else f"not reproduced: {what}")
                elif q != z3.unsat:
                    yield ("limit", None, f"solver: {q}")
                S.pop()
            S.pop()
    finally:
        R.close()
