from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *

ck = Check("C15", ["CircuitChunks::split, split_with_cost, reassemble; Chunk::extract, insert, empty_chunk_insert_result (tket/src/passes/chunks.rs)"],
           "random circuits (quick 260, thorough 3000; <=5 qubits, <=16 operations, symbolic angles, shared classical wires, constants, and measurements; nested regions only in the listed finding) split into chunks of 1..7 operations "
           "or by CX count, reassembled unchanged, or with every chunk rewritten by the ECC rewriter, or with its cancelling gates removed and its swaps replaced by crossed wires",
           SEM)
ECC = "/repo/test_files/eccs/"


def pipes(s):
    n = 1 + s % 7
    return {"split": [{"t": "chunks", "n": n}], "cx": [{"t": "chunks", "n": s % 3, "cost": "cx"}],
            "rewrite": [{"t": "chunks_rewrite", "ecc": ECC + ("small_eccs.json" if s % 2 else "h_rz_cxcomplete_ECC_set.json" if s % 4 == 0 else "cx_cx_eccs.json"), "n": 2 + s % 6, "max_delta": s % 3 - 1}]}




def judge(ck, c, pipe, r, o, jobs, idx):
    """no chunk is larger than asked for, unless it is one operation"""
    st = c.pipes[pipe][0]
    for info in o["info"]:
        for n in info.get("sizes", ()):
            if n["cost" in st] > max(1, st["n"]):
                ck.alarm(f"{c.name}/{pipe}", f"a chunk has {n[0]} operations and {n[1]} CX gates, the limit is {st}", {"steps": c.pipes[pipe], "src": c.src})
                return
    jobs.append((idx, pipe, r["before"], o["ok"], c.opts, ck.case_limit, False))


U = dict(g1=5, rot=3, g2=6, crz=1, ccx=.5, rotx=1)
for s in range(160 if TIER == "quick" else 1800):
    j = Gen(f"c15/{SEED}/{s}", U, maxq=5, maxrot=8).program(nq=1 + s % 5, copy=[ROT, ROT], size=6 + s % 11, depth=0)
    ck.add(f"uni{s}", {"hugr": j}, pipes(s))
# circuits of gates that cancel: chunks become empty or identities
C = ["H", "CX", "X", "Z", "CX3"]
for s in range(120 if TIER == "quick" else 1200):
    r = Gen(f"c15c/{SEED}/{s}", {}).r
    m = Module()
    nq = 1 + s % 3
    f = m.main([QB] * nq, [QB] * nq)
    qs = list(f.ins)
    for _ in range(r.randint(2, 6)):
        g = r.choice(C if nq > 1 else ["H", "X", "Z"])
        pl = r.sample(range(nq), 2 if g[:2] == "CX" else 1)
        if g == "CX3":
            for _ in range(3):
                qs[pl[0]], qs[pl[1]] = f.op("tket.quantum.CX", [qs[pl[0]], qs[pl[1]]])
                pl = pl[::-1]
            continue
        for _ in range(r.choice([1, 2, 2, 4])):
            for i, w in zip(pl, f.op("tket.quantum." + g, [qs[i] for i in pl])):
                qs[i] = w
    r.shuffle(qs)
    f.out(qs)
    ck.add(f"cancel{s}", {"hugr": m.json()}, {**pipes(s), "cancel": [{"t": "chunks_cancel", "n": 2 + s % 6}]})
# cancelling pairs and swaps spread over partly idle chunks
for s in range(160 if TIER == "quick" else 1600):
    r = Gen(f"c15s/{SEED}/{s}", {}).r
    m = Module()
    nq = 2 + s % 4
    f = m.main([QB] * nq, [QB] * nq)
    qs = list(f.ins)
    for _ in range(r.randint(2, 5)):
        for _ in range(r.randint(0, 2)):
            i = r.randrange(nq)
            qs[i] = f.op("tket.quantum." + r.choice("HTSV"), [qs[i]])[0]
        a, b = r.sample(range(nq), 2)
        k = r.choice(["swap", "swap", "pair", "cx"])
        for g in range({"swap": 3, "pair": 2, "cx": 1}[k]):
            qs[a], qs[b] = f.op("tket.quantum.CX", [qs[a], qs[b]])
            if k == "swap":
                a, b = b, a
    r.shuffle(qs)
    f.out(qs)
    ck.add(f"swap{s}", {"hugr": m.json()}, {"cancel": [{"t": "chunks_cancel", "n": 2 + s % 6}]})
D = dict(g1=3, rot=3, g2=4, crz=1, meas=1, measfree=.5, reset=.5, alloc=.5, free=.3, bool=.8, float=.7, rotx=.7, tuple=.6, nodead=1)
for s in range(120 if TIER == "quick" else 1200):
    j = Gen(f"c15d/{SEED}/{s}", D, maxq=4).program(nq=2, copy=[ROT, BOOL, F64], size=12, depth=0)
    ck.add(f"dyn{s}", {"hugr": j}, {k: v for k, v in pipes(s).items() if k != "rewrite"}, {"max_meas": 6})
# a circuit with a nested region (known finding: its contents are dropped)
m = Module()
f = m.main([QB, ROT], [QB])
g = f.dfg(f.ins, [QB])
g.out(g.op("tket.quantum.Rx", g.ins))
f.out(g.outs)
ck.add("nested", {"hugr": m.json()}, pipes(0))
# an unused value computed from a value with another use (known finding: upstream convexity check)
m = Module()
f = m.main([QB, F64], [QB, ROT])
a = f.op("tket.rotation.from_halfturns_unchecked", [f.ins[1]])[0]
b = f.op("arithmetic.float.fneg", [f.ins[1]])[0]
f.op("tket.rotation.from_halfturns_unchecked", [b])
f.op("arithmetic.float.fneg", [b])
f.out([f.ins[0], a])
ck.add("deadval", {"hugr": m.json()}, {"cx": [{"t": "chunks", "n": 2, "cost": "cx"}]})
# an order edge between operations that fall into different chunks (known finding: a chunk with an order edge on its boundary cannot be described)
m = Module()
f = m.main([QB, QB], [QB, QB])
q = f.op("tket.quantum.CX", f.ins, ordered=True)
q = f.op("tket.quantum.CX", q)
q = f.op("tket.quantum.CX", q)
q[0] = f.op("tket.quantum.H", [q[0]])[0]
q[1] = f.op("tket.quantum.H", [q[1]], ordered=True)[0]
f.out(q)
ck.add("orderedge", {"hugr": inner_order(m.json())}, {"cx": [{"t": "chunks", "n": 2, "cost": "cx"}]})
for c in ck.cases:
    c.judge = judge
ck.run_cases()
ck.finish()
