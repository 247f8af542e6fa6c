"""Circuit::store / load: a circuit saved and loaded again is the same program."""
import copy
import random
from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C26", ["Circuit::store, store_str, load, load_str, load_function, load_function_str, find_function (tket/src/serialize.rs)", "Circuit::to_owned, extract_dfg, try_new (tket/src/circuit.rs)"],
           "random programs (quick 420, thorough 4200) of at most 14 statements, depth at most 2, with every feature of the generator; text, compressed and plain binary envelopes; the circuit of a function, a nested region or the "
           "whole module; functions with equal and prefixed names; all inputs and outcomes symbolic", SEM)
Q = TIER == "quick"
O = {"max_meas": 6}
ST = {"text": [{"t": "store", "format": "text"}], "binary": [{"t": "store", "format": "binary"}], "plain": [{"t": "store", "format": "plain"}], "own": [{"t": "extract_dfg"}]}


def judge(ck, c, pipe, r, o, jobs, idx):
    """the same entry point is expected too: compared as programs that start there"""
    b, a = c.want[pipe] if hasattr(c, "want") and pipe in c.want else r["before"], o["ok"]
    eb, ea = (j["nodes"][j.get("entrypoint") or 0] for j in (b, a))
    if eb["op"] != ea["op"] or eb.get("signature") != ea.get("signature"):
        ck.alarm(f"{c.name}/{pipe}", f"the circuit was a {eb['op']} {eb.get('name', '')}, the one loaded is a {ea['op']} {ea.get('name', '')}", {"steps": c.pipes[pipe], "src": c.src})
        return
    jobs.append((idx, pipe, b, a, c.opts, ck.case_limit, False))


def add(name, j, pipes, entry=None, want=None):
    src = {"hugr": j}
    if entry:
        src["entry"] = entry
    ck.add(name, src, pipes, O, judge=judge)
    if want:
        ck.cases[-1].want = want


for s in range(200 if Q else 2000):
    j = Gen(f"c26/{SEED}/{s}", ALL, ordered=s % 2 == 1, maxq=4, native=s % 3 == 0).program(nq=2, copy=[ROT, BOOL, F64], size=9, depth=s % 3, externs=True)
    add(f"full{s}", j, ST)
# without the extensions of tket-qsystem, which the loader of functions does not know
F = {k: v for k, v in ALL.items() if k not in ("result",)}
F.update(call=3, calli=1, dfg=1, cond=1)
NAMES = ["main", "mai", "main2", "main.f", "Main", "ain", "f", "f0", "f00"]
for s in range(220 if Q else 2200):
    r = random.Random(f"c26n/{SEED}/{s}")
    j = Gen(f"c26f/{SEED}/{s}", F, maxq=4).program(nq=2, copy=[ROT, BOOL, F64], size=9, depth=s % 3, externs=s % 2 == 0)
    fs = [i for i, n in enumerate(j["nodes"]) if n["op"] == "FuncDefn" and n["parent"] == 0]
    names = r.sample(NAMES, min(len(fs), len(NAMES))) if s % 4 else [r.choice(NAMES[:3]) for _ in fs]
    for i, nm in zip(fs, names):
        j["nodes"][i]["name"] = nm
        if s % 4 == 0:
            j["nodes"][i]["visibility"] = "Private"
    pick = list(dict.fromkeys(j["nodes"][i]["name"] for i in fs))[:3]
    pipes, want = {}, {}
    for nm in pick:
        w = dict(j, entrypoint=next(i for i in fs if j["nodes"][i]["name"] == nm))
        if any("params" in j["nodes"][i]["signature"] and j["nodes"][i]["signature"]["params"] for i in fs if i == w["entrypoint"]):
            continue
        for t in (True, False):
            k = f"{nm}-{'text' if t else 'binary'}"
            pipes[k] = [{"t": "load_function", "name": nm, "text": t}]
            want[k] = w
    if pipes:
        add(f"fn{s}", j, pipes, want=want)
# the circuit of a nested graph
k = 0
for s in range(300 if Q else 3000):
    j = Gen(f"c26d/{SEED}/{s}", dict(ALL, dfg=4), maxq=4).program(nq=2, copy=[ROT, BOOL, F64], size=7, depth=2, externs=True)
    ds = [i for i, n in enumerate(j["nodes"]) if n["op"] == "DFG"]
    if ds and k < (80 if Q else 800):
        k += 1
        add(f"nested{s}", dict(j, entrypoint=random.Random(f"c26d/{s}").choice(ds)), ST)
ck.run_cases()
ck.finish()
