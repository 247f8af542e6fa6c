"""Checks of the compiler's output: every program of a family is compiled and the emitted function decided against the program."""
import time
from . import drv, qis
from .common import Check, NPROC, pmap


class LCheck(Check):
    def compile_cases(self, levels):
        """compile every program of the family and decide the emitted function against the program"""
        rs = drv.run([dict(c.src, pipes={}) for c in self.cases], NPROC)
        jobs, where = [], []
        for i, (c, r) in enumerate(zip(self.cases, rs)):
            if "before" not in r or r.get("valid"):
                self.bad_load(c, r)
                continue
            for lv in c.pipes:
                closed = lv.startswith("qmain")
                b = r["before"]
                if lv == "qmain-module":
                    b = dict(b, entrypoint=0)
                jobs.append((b if closed else qis.wrap(b), *levels[lv]))
                where.append((i, lv, r["before"], closed))
        out = pmap(qis.compile_one, jobs, 60, time.time() + 400)
        todo = []
        for (i, lv, before, closed), r in zip(where, out):
            c = self.cases[i]
            rep = {"steps": [{"t": "qis", "level": lv}], "src": c.src}
            if r is None:
                self.alarm(f"{c.name}/{lv}", "the compiler crashed on a valid program", rep)
            elif "err" in r:
                self.alarm(f"{c.name}/{lv}", f"the compiler failed on a valid program: {r['err']}", rep)
            else:
                todo.append((i, lv, before, qis.side(before, r["llvm"], closed), c.opts, self.case_limit, False))
        self.decide_jobs(todo)
