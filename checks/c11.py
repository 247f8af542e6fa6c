from vlib import drv
drv.build()
from vlib.common import *
from vlib.fam import *
import json
import random

Q = TIER == "quick"
ck = Check("C11", ["EncodedCircuit::new / reassemble_inplace / new_standalone / reassemble, SerialCircuit::encode / decode (tket/src/serialize/pytket/)",
                   "PytketEncoderContext, value and unsupported-subgraph trackers (tket/src/serialize/pytket/encoder*)", "PytketDecoderContext, WireTracker, subgraph insertion (tket/src/serialize/pytket/decoder*)",
                   "extension emitters and decoders (tket/src/serialize/pytket/extension/, tket-qsystem/src/pytket/)"],
           "random programs (quick 530, thorough 7800) of <=12 operations on <=4 qubits, depth <=2: circuits pytket expresses completely (in place, stand-alone, serial circuit alone), with arithmetic on angles "
           "and unsupported classical operations, and full-feature programs with control flow, arrays and external calls (in place, with and without encoded subcircuits); at most 7 measurements", SEM)
O = {"max_meas": 7}
PIPES = {"inplace": [{"t": "pytket_inplace", "subs": False}], "inplace-subs": [{"t": "pytket_inplace", "subs": True}], "inplace-noq": [{"t": "pytket_inplace", "subs": True, "qsystem": False}],
         "standalone": [{"t": "pytket_standalone", "subs": False}], "encdec": [{"t": "pytket_enc_dec"}],
         # the commands of the encoded circuits put in another order which keeps that of each qubit and bit
         "moved": [{"t": "pytket_inplace", "subs": False, "shuffle": 3}], "moved-subs": [{"t": "pytket_inplace", "subs": True, "shuffle": 5}],
         "moved-noq": [{"t": "pytket_inplace", "subs": True, "qsystem": False, "shuffle": 7}]}
# circuits that pytket can express completely
FLAT = dict(g1=4, rot=4, g2=3, crz=1, ccx=.5, meas=1, reset=.5, alloc=.7, tbool=1.5)
for s in range(100 if Q else 1500):
    j = Gen(f"c11f/{SEED}/{s}", FLAT, maxq=4).program(nq=2, copy=[[ROT], [BOOL, ROT], [TBOOL, ROT], []][s % 4], size=8)
    ck.add(f"flat{s}", {"hugr": j}, {k: PIPES[k] for k in ("inplace", "standalone", "moved")}, O)
# a serial circuit alone keeps the order of the qubits
PURE = dict(g1=4, rot=4, g2=3, crz=1, ccx=.5, reset=.5, alloc=.7, free=.3)
for s in range(60 if Q else 800):
    j = Gen(f"c11p/{SEED}/{s}", PURE, maxq=4).program(nq=1 + s % 3, copy=[[ROT], []][s % 2], size=9, outs=False)
    ck.add(f"pure{s}", {"hugr": j}, {k: PIPES[k] for k in ("encdec", "inplace")}, O)
# arithmetic on angles, and operations pytket does not know kept as opaque barriers
ARITH = dict(FLAT, rotx=2, float=2, bool=1)
for s in range(100 if Q else 1500):
    j = Gen(f"c11a/{SEED}/{s}", ARITH, maxq=4).program(nq=2, copy=[[ROT, F64], [BOOL, F64, ROT], [TBOOL, ROT, ROT], [F64]][s % 4], size=10)
    ck.add(f"arith{s}", {"hugr": j}, {k: PIPES[k] for k in ("inplace", "inplace-noq", "moved-noq")}, O)
    ck.add(f"arith-s{s}", {"hugr": j}, {"standalone": PIPES["standalone"]}, O, expect="refuse:Cannot encode subgraphs with nested structure or non-local edges in an standalone circuit")
# angles computed by trees of float and rotation operations, for gates and native gates
for s in range(120 if Q else 1500):
    ck.add(f"angles{s}", {"hugr": angles(f"c11h/{SEED}/{s}", 3 + s % 2, native=s % 3 == 0)}, {k: PIPES[k] for k in ("inplace", "inplace-noq", "moved-noq")}, O)
# programs which name their registers and parameters, as programs read from pytket do: names which new registers and variables must not take again


def named(j, r):
    m = next(i for i, n in enumerate(j["nodes"]) if n["op"] == "FuncDefn" and n["name"] == "main")
    ins = j["nodes"][m]["signature"]["body"]["input"]
    nq, nb, nr = (sum(t == x for t in ins) for x in (QB, TBOOL, ROT))
    more = r.choice([0, 0, 1])
    qs = r.sample([[x, [k]] for x in ("q", "x") for k in range(4)], nq + more * (nq > 0))
    bs = r.sample([[x, [k]] for x in ("c", "b") for k in range(4)], nb)
    md = {"TKET1.qubit_registers": qs, "TKET1.bit_registers": bs, "TKET1.input_parameters": r.sample(["f0", "f1", "f2", "a", "theta", "f10"], nr)}
    while len(j["metadata"]) < len(j["nodes"]):
        j["metadata"].append(None)
    j["metadata"][m] = dict(j["metadata"][m] or {}, **md)
    return j


for s in range(80 if Q else 1200):
    j = named(Gen(f"c11n/{SEED}/{s}", dict(FLAT, alloc=2), maxq=5).program(nq=2, copy=[[ROT], [TBOOL, ROT], [TBOOL, TBOOL], []][s % 4], size=8), random.Random(f"names/{s}"))
    ck.add(f"named{s}", {"hugr": j}, {k: PIPES[k] for k in ("inplace", "inplace-noq", "moved-noq")}, O)
# constants: bits and tuples of them, loaded once or twice, from the region or the module, beside bits of the program


def consts(seed):
    r = random.Random(seed)
    m = Module()
    f = m.main([QB, BOOL, TBOOL, ROT], None)
    q, b0, t0, a0 = f.ins
    bs, ts, rs = [b0], [t0], [a0]

    def val(d):
        x = r.random()
        if d == 0 or x < .25:
            return c_bool(r.random() < .5) if r.random() < .6 else c_tbool(r.random() < .5)
        if x < .32:
            return c_tuple([])
        if x < .4:
            return c_rot(r.choice([.25, .5, 1.25]))
        return c_tuple([val(d - 1) for _ in range(r.choice([1, 2, 2, 3]))])

    def open_(w):
        if w.ty == BOOL:
            bs.append(w)
        elif w.ty == TBOOL:
            ts.append(w)
        elif w.ty == ROT:
            rs.append(w)
        elif rows_of(w.ty)[0]:
            for x in f.untup(w):
                open_(x)
    outs = []
    for _ in range(r.choice([1, 2, 2, 3])):
        v = val(r.choice([0, 0, 1, 2, 3]))
        c = f.const(v, 0) if r.random() < .2 else f.const(v)
        for _ in range(r.choice([1, 1, 2])):
            w = f.load(c)
            if r.random() < .3:
                outs.append(w)
            if r.random() < .8:
                open_(w)
    for _ in range(r.randint(0, 4)):
        k = r.randrange(6)
        if k == 0:
            ts.append(f.op("tket.bool." + r.choice(["and", "or", "xor", "eq"]), [r.choice(ts), r.choice(ts)])[0])
        elif k == 1:
            ts.append(f.op("tket.bool.make_opaque", [r.choice(bs)])[0])
        elif k == 2:
            bs.append(f.op("tket.bool.read", [r.choice(ts)])[0])
        elif k == 3:
            q, t = f.op("tket.quantum.MeasureFree", [q]), None
            ts.append(q[0])
            q = f.op("tket.quantum.QAlloc", [])[0]
        elif k == 4:
            q = f.op("tket.quantum.Rx", [q, r.choice(rs)])[0]
        else:
            outs.append(f.tup([r.choice(bs), r.choice(ts)]))
    outs += [q] + r.sample(bs, r.randint(1, len(bs))) + r.sample(ts, r.randint(0, len(ts)))
    r.shuffle(outs)
    f.out(outs)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in outs]
    return m.json()


def tuples(seed):
    """tuples of qubits and bits as inputs, outputs, operands of calls and of tuple operations"""
    r = random.Random(seed)
    m = Module()

    def ty(d, n=3):
        x = r.random()
        if d == 0 or x < .3:
            return r.choice([QB, QB, BOOL, TBOOL])
        return TUP(*[ty(d - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))])

    def leaves(t):
        return [t] if t in (QB, BOOL, TBOOL) else [y for x in rows_of(t)[0] for y in leaves(x)]
    while True:
        ins = [ty(r.choice([0, 1, 2, 2])) for _ in range(r.choice([1, 2, 2, 3]))]
        if 1 <= sum(leaves(t).count(QB) for t in ins) <= 4 and sum(len(leaves(t)) for t in ins) <= 7:
            break
    ext = {}
    f = m.main(ins, None)
    vals = list(f.ins)
    for _ in range(r.randint(3, 9)):
        k = r.randrange(7)
        tups = [w for w in vals if w.ty["t"] == "Sum" and w.ty != BOOL and rows_of(w.ty)[0]]
        qs = [w for w in vals if w.ty == QB]
        if k <= 1 and tups:
            w = r.choice(tups)
            vals.remove(w)
            vals += f.untup(w)
        elif k == 2 and vals:
            ws = r.sample(vals, min(len(vals), r.choice([1, 2, 2, 3])))
            for w in ws:
                if w.ty not in (BOOL, TBOOL) or r.random() < .6:
                    vals.remove(w)
            vals.append(f.tup(ws))
        elif k == 3 and len(qs) > 1:
            a, b = r.sample(qs, 2)
            vals = [w for w in vals if w is not a and w is not b] + f.op("tket.quantum." + r.choice(["CX", "CY", "CZ"]), [a, b])
        elif k == 4 and qs:
            a = r.choice(qs)
            vals.remove(a)
            vals += f.op("tket.quantum." + r.choice(["H", "T", "V", "Measure", "Reset"]), [a])
        elif k == 5 and tups:
            w = r.choice(tups)
            key = json.dumps(w.ty)
            if key not in ext:
                g = ext[key] = m.func(f"g{len(ext)}", [w.ty], [w.ty])
                g.out(g.ins)
            vals.remove(w)
            vals += f.call(ext[key], [w])
        elif k == 6:
            bs = [w for w in vals if w.ty == TBOOL]
            if len(bs) > 1:
                vals += f.op("tket.bool." + r.choice(["and", "or", "xor"]), r.sample(bs, 2))
    r.shuffle(vals)
    f.out(vals)
    m.nodes[f.n]["signature"]["body"]["output"] = [w.ty for w in vals]
    return m.json()


for s in range(120 if Q else 2000):
    ck.add(f"tuples{s}", {"hugr": tuples(f"c11t/{SEED}/{s}")}, {k: PIPES[k] for k in ("inplace", "inplace-noq", "moved-noq")}, O)
for s in range(100 if Q else 1500):
    ck.add(f"consts{s}", {"hugr": consts(f"c11k/{SEED}/{s}")}, {k: PIPES[k] for k in ("inplace", "inplace-noq", "moved-noq")}, O,
           expect="refuse:An unsupported subgraph has no qubits or bits to attach the barrier command to")
# everything, transplanted back into the program it came from
FULL = dict(ALL)
for s in range(150 if Q else 2500):
    j = Gen(f"c11/{SEED}/{s}", FULL, ordered=s % 2 == 1, maxq=4, native=s % 3 == 0).program(nq=2, copy=[ROT, BOOL, F64], size=9, depth=2, externs=True)
    ck.add(f"full{s}", {"hugr": j}, {k: PIPES[k] for k in ("inplace", "inplace-subs", "moved", "moved-subs")}, O,
           expect="refuse:An unsupported subgraph has no qubits or bits to attach the barrier command to")
ck.run_cases()
ck.finish()
