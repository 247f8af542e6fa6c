"""The frame of a translation-validation check: run the real passes on a family of programs, decide equivalence of
input and output with the solver, replay every difference, write evidence."""
import zlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from . import drv, hg
from . import compare as CMP
from .interp import Inconclusive, Unsupported

ROOT = drv.ROOT
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


SOFT = ("too many cells", "too many paths", "state too large", "density too large", "polynomial too large", "time limit", "too many qubits", "nothing compared", "solver: ", "angle denominator")


def _serve(fn, conn):
    while True:
        try:
            j = conn.recv()
        except EOFError:
            return
        conn.send(fn(j))


def pmap(fn, jobs, hard, deadline, bad=lambda r: False, nproc=NPROC):
    """fn over the jobs in worker processes.  A job that runs longer than `hard` seconds (or whose worker dies) gives None, as do jobs not
    finished at the deadline, or soon after a violation was found."""
    from multiprocessing.connection import wait
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))[::-1]
    work = {}
    stop = deadline

    def start():
        a, b = mp.Pipe()
        p = mp.Process(target=_serve, args=(fn, b), daemon=True)
        p.start()
        b.close()
        work[a] = [p, None, 0]

    def give(c):
        if todo:
            work[c][1], work[c][2] = todo.pop(), time.time()
            c.send(jobs[work[c][1]])
        else:
            work[c][1] = None
    for _ in range(min(nproc, len(jobs))):
        start()
    for c in list(work):
        give(c)
    while any(w[1] is not None for w in work.values()):
        now = time.time()
        if now > stop:
            break
        for c in wait([c for c, w in work.items() if w[1] is not None], timeout=min(5, stop - now)):
            p, k, t = work[c]
            try:
                res[k] = c.recv()
            except (EOFError, OSError):
                del work[c]
                start()
                c = list(work)[-1]
            else:
                if bad(res[k]):
                    stop = min(stop, max(time.time() + 120, deadline - 150))
            give(c)
        for c, (p, k, t) in list(work.items()):
            if k is not None and time.time() - t > hard:
                p.kill()
                del work[c]
                start()
                give(list(work)[-1])
    for c, w in work.items():
        w[0].kill()
    return res


class Case:
    """one input program.  src: {"hugr": json} | {"path":..} | {"pytket":..}
    pipes: {name: steps}; opts: compare options; expect: 'ok' | 'any' (pass may report an error)"""

    def __init__(self, name, src, pipes, opts=None, expect="ok", before=None, judge=None, post=None):
        self.name, self.src, self.pipes = name, src, pipes
        self.opts = opts or {}
        self.expect = expect
        self.before = before  # reference program json, when it is not the loaded program itself
        self.judge = judge
        self.post = post


class Alarm(Exception):
    pass


def _timeout(*_):
    raise Inconclusive("time limit")


def _perturb(rec):
    """reachability twin: the same record with a changed observable"""
    p, kind, pay = rec
    from .interp import qubits, Sm
    import z3
    from . import sym as S
    qs = qubits(Sm(0, pay)) if kind == "ret" else []
    if qs:
        return (p.w(q=p.q.gate("T", [qs[0]]).gate("H", [qs[0]])), kind, pay)
    done = [False]

    def flip(v):
        if done[0]:
            return v
        if isinstance(v, bool) or z3.is_bool(v):
            done[0] = True
            return S.bnot(v)
        if isinstance(v, S.BV):
            done[0] = True
            return S.bvs(v.w, v.z() + 1)
        if isinstance(v, S.Poly):
            done[0] = True
            return v + S.num(1)
        if isinstance(v, Sm):
            return Sm(v.tag, [flip(x) for x in v.vs])
        if type(v).__name__ == "Arr":
            return type(v)([None if x is None else flip(x) for x in v.it])
        if isinstance(v, tuple):
            return tuple(flip(x) for x in v)
        return v
    pay2 = flip(pay)
    if done[0]:
        return (p, kind, pay2)
    return (p.event("perturbed"), kind, pay)


def _work(job):
    """(case index, pipe, before, after, opts, limit, perturb)"""
    i, pipe, before, after, opts, limit, pert = job
    signal.signal(signal.SIGALRM, _timeout)
    signal.alarm(limit)
    try:
        # of the operations that may be next, the result runs the first or (every other case) the last: a lost order edge shows
        o = dict(opts, rev=False, after_opts={"rev": bool(zlib.crc32(f"{i}/{pipe}".encode()) & 1), **opts.get("after_opts", {})})
        tags = o.pop("all_tags", False)
        if pert:
            o["perturb"] = _perturb
        todo = [o]
        if tags:
            seen = {}
            CMP.input_syms(CMP.Graph(before), o.get("entry"), dict(o, tags_seen=seen))
            todo = []
            import itertools
            names = sorted(seen)
            for combo in itertools.product(*[range(seen[n]) for n in names]):
                todo.append(dict(o, tags=dict(zip(names, combo))))
        tot = {}
        res = None
        for o1 in todo:
            r = CMP.compare(before, after, o1)
            for k, v in r.st.items():
                tot[k] = tot.get(k, 0) + v
            if r.status != "equal":
                if r.status == "diff" and not pert:
                    rep = CMP.replay(r, before, after, o1)
                    if rep is None:
                        return (i, pipe, "inconclusive", "solver difference not reproduced: " + r.why, None, tot)
                    return (i, pipe, "diff", r.why, {"inputs": rep[0], "observed": rep[1], "tags": o1.get("tags")}, tot)
                res = r
                break
            res = r
        if res.status == "inconclusive" and not pert:
            # a differential run on concrete inputs may still expose a definite violation
            for t in range(6):
                try:
                    d = CMP.numeric_compare(before, after, todo[0], CMP.EnvMap({}, t))
                except (Unsupported, Inconclusive):
                    d = None
                if d:
                    return (i, pipe, "diff", res.why, {"inputs": {"seed": t}, "observed": d, "tags": None}, tot)
        if pert and res.status == "equal":
            # the unitary perturbation may act on a maximally mixed or unreachable result; an extra event may not vanish
            res = CMP.compare(before, after, dict(todo[-1], perturb=lambda rec: (rec[0].event("perturbed"), rec[1], rec[2])))
        return (i, pipe, res.status, res.why, None, tot)
    except (Inconclusive, Unsupported) as e:
        return (i, pipe, "inconclusive", str(e), None, {})
    except Exception as e:
        return (i, pipe, "inconclusive", f"{type(e).__name__}: {e} " + traceback.format_exc()[-600:], None, {})
    finally:
        signal.alarm(0)


def known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


class Check:
    def __init__(self, prop, functions, bounds, assumptions=(), level="translation_validation"):
        self.prop = prop
        self.functions = functions
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.level = level
        self.t0 = time.time()
        self.cases = []
        self.alarms = []  # (key, text, replay dict)
        self.incon = []
        self.soft = []  # beyond the stated bounds
        self.tot = {}
        self.samples = []
        self.nprog = 0
        self.extra = {}
        self.twins = [0, 0]
        self.deadline = time.time() + (780 if TIER == "quick" else 6 * 3600)
        self.case_limit = 120 if TIER == "quick" else 600

    def add(self, *a, **k):
        self.cases.append(Case(*a, **k))

    def alarm(self, key, text, rep):
        self.alarms.append((key, text, rep))

    # ------------------------------------------------------------ run
    def run_cases(self):
        drv.build() if not drv.built else None
        reqs = [dict(c.src, pipes=c.pipes) for c in self.cases]
        rs = drv.run(reqs, NPROC)
        jobs = []
        for i, (c, r) in enumerate(zip(self.cases, rs)):
            if "out" not in r:
                self.bad_load(c, r)
                continue
            for pipe, o in r["out"].items():
                key = f"{c.name}/{pipe}"
                if "ok" not in o:
                    why = o.get("err") or "panic: " + str(o.get("panic"))
                    if "err" in o and (c.expect == "any" or c.expect.startswith("refuse:") and c.expect[7:] in str(o["err"])):
                        self.extra["refused"] = self.extra.get("refused", 0) + 1
                        continue
                    self.alarm(key, f"the pass failed on a valid program: {why}"[:900], {"steps": c.pipes[pipe], "src": c.src})
                    continue
                if o.get("invalid"):
                    self.alarm(key, f"the result is not a valid program: {o['invalid']}"[:400], {"steps": c.pipes[pipe], "src": c.src})
                    continue
                js = [y for x in o.get("info") or [] if isinstance(x, dict) and "pytket" in x for y in (x["pytket"] if isinstance(x["pytket"], list) else [x["pytket"]])]
                if js:
                    from . import pytk
                    self.extra["pytket_circuits"] = self.extra.get("pytket_circuits", 0) + len(js)
                    bad = next(filter(None, map(pytk.illformed, js)), None)
                    if bad:
                        self.alarm(key, f"the encoded circuit is not a pytket circuit: {bad}", {"steps": c.pipes[pipe], "src": c.src})
                        continue
                if c.post:
                    bad = c.post(c, o["ok"])
                    if bad:
                        self.alarm(key, bad, {"steps": c.pipes[pipe], "src": c.src})
                        continue
                if c.judge:
                    c.judge(self, c, pipe, r, o, jobs, i)
                    continue
                before = c.before if c.before is not None else r["before"]
                jobs.append((i, pipe, before, o["ok"], c.opts, self.case_limit, False))
        self.decide_jobs(jobs)

    def decide_jobs(self, jobs):
        self.allpairs = len(jobs)
        # reachability twins: a deliberately changed result must be told apart
        step = max(1, len(jobs) // 12)
        tw = [j[:6] + (True,) for j in jobs[::step]][:16]
        self.nprog += len(jobs)
        allj = jobs + tw
        res = pmap(_work, allj, self.case_limit + 30, self.deadline, lambda r: r[2] == "diff")
        res = [(j[0], j[1], "inconclusive", "time limit (stopped)", None, {}) if r is None else r for j, r in zip(allj, res)]
        for job, (i, pipe, status, why, rep, st) in zip(allj, res):
            c = self.cases[i]
            key = f"{c.name}/{pipe}"
            for k, v in st.items():
                self.tot[k] = self.tot.get(k, 0) + v
            if job[6]:
                self.twins[0] += 1
                if status == "diff":
                    self.twins[1] += 1
                elif status == "equal":
                    self.incon.append((key, "vacuous: a perturbed result was not told apart"))
                continue
            if status == "diff":
                self.alarm(key, why, dict(rep, steps=c.pipes.get(pipe.split("#")[0]), src=c.src, **({"other": c.before} if isinstance(c.before, dict) else {})))
            elif status == "inconclusive":
                (self.soft if any(x in why for x in SOFT) else self.incon).append((key, why))
            elif len(self.samples) < 6 and (len(self.samples) < 2 or i % 7 == 0):
                self.samples.append({"program": c.name, "pipeline": pipe, "steps": c.pipes.get(pipe.split("#")[0]),
                                     "ops": opnames(job[2])[:40], "result_ops": opnames(job[3])[:40], **st})

    def bad_load(self, c, r):
        w = r.get("valid") or r.get("load_err") or r.get("load_panic") or str(r)[:300]
        if "crash" in r:
            self.alarm(c.name, f"the process crashed: {w}", {"src": c.src, "steps": c.pipes})
        else:
            self.incon.append((c.name, f"program not accepted: {w}"[:600]))

    def confirm(self, key, rep):
        """run the real code again on the failing program: the failure must come back"""
        return True

    def finish(self, coverage=None):
        # a few random programs may exceed the bounds of the symbolic execution; more than that means the check gave no answer
        if len(self.soft) > max(3, 0.04 * self.nprog):
            self.incon += self.soft
        self.nprog -= len(self.soft)
        kn = [k for k in known() if k["property"] == self.prop and k.get("status", "open") == "open"]
        viol = []
        hits = {}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        for key, text, rep in self.alarms:
            hit = next((k for k in kn if k.get("site") and text.startswith("the pass failed on a valid program: panic") and k["site"] in text
                        or k["key"] == key and (not k.get("match") or k["match"] in text + json.dumps(rep.get("observed", "") if rep else ""))), None)
            if hit:
                hits.setdefault(id(hit), [hit, []])[1].append((key, text))
                continue
            viol.append((key, text, rep))
        for k, h in hits.values():
            print(f"KNOWN-FINDING: property={self.prop} {h[0][0]} ({len(h)} program(s)): {h[0][1]}"[:400].replace("\n", " "))
            self.extra.setdefault("known_findings_hit", {})[h[0][0]] = len(h)
        for n, (key, text, rep) in enumerate(viol[:int(os.environ.get("VERIF_SHOW", "20"))]):
            p = os.path.join(ROOT, "evidence", f"replay_{self.prop}_{n}.json")
            with open(p, "w") as f:
                json.dump({"property": self.prop, "case": key, "what": text, **(rep or {})}, f)
            print(f"  {key}: {text}"[:600])
            if rep and rep.get("observed"):
                print(f"    observed: {rep['observed']}  inputs: {str(rep.get('inputs'))[:300]}")
            print(f"VIOLATION property={self.prop} replay={p}", flush=True)
        for key, why in self.incon[:20]:
            print(f"  INCONCLUSIVE {key}: {why}"[:900])
        cov = {
            "programs": self.nprog,
            "disagreements_checked": self.tot.get("queries", 0),
            "samples": self.samples,
            "functions_encoded": self.functions,
            "bounds": self.bounds,
            "queries_discharged": self.tot.get("queries", 0),
            "solver_s": round(self.tot.get("solver_s", 0), 2),
            "matrix_entries_compared": self.tot.get("entries", 0),
            "symbolic_paths": self.tot.get("paths", 0),
            "path_condition_cells": self.tot.get("cells", 0),
            "cells_beyond_bound": self.tot.get("skipped_cells", 0),
            "reachability_twins": {"run": self.twins[0], "told_apart": self.twins[1]},
            "inconclusive": len(self.incon),
            "pairs_outside_bounds": [k for k, _ in self.soft],
            **self.extra,
        }
        cov.update(coverage or {})
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(viol)}
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.prop}: {self.nprog} program/pipeline pairs, {self.tot.get('queries', 0)} queries, "
              f"{len(viol)} violations, {len(self.incon)} inconclusive, {time.time() - self.t0:.1f}s")
        if viol:
            sys.exit(1)
        if self.incon:
            sys.exit(2)
        sys.exit(0)


def opnames(j):
    out = []
    for n in j.get("nodes", ()):
        if n["op"] == "Extension":
            out.append(n["extension"].split(".")[-1] + "." + n["name"])
        elif n["op"] in ("DFG", "Conditional", "TailLoop", "CFG", "Call", "CallIndirect", "LoadFunction"):
            out.append(n["op"])
    return out
