"""Cases shared by the checks of the control (C03) and dagger (C04) modifiers."""
import random
from .common import *
from .mods import *
from .fam import *

P = {"resolve": [{"t": "modifiers"}]}
OPTS = {"v_sqrtx": True}
GATES = {"H": (1, 0), "X": (1, 0), "Y": (1, 0), "Z": (1, 0), "S": (1, 0), "Sdg": (1, 0), "T": (1, 0), "Tdg": (1, 0), "V": (1, 0), "Vdg": (1, 0), "Rx": (1, 1), "Ry": (1, 1),
         "Rz": (1, 1), "CX": (2, 0), "CY": (2, 0), "CZ": (2, 0), "CRz": (2, 1), "Toffoli": (3, 0), "global_phase": (1, 1)}
FUNCS = ["ModifierResolver: try_rewrite, apply_modifier_chain_to_loaded_fn, modify_signature, wire_inout, connect_all (tket/src/modifier/modifier_resolver.rs)",
         "modify_tket_op, CombinedModifier::modified, rot_angle (modifier_resolver/tket_op_modify.rs)", "modify_global_phase (global_phase_modify.rs)",
         "modify_dfg_body, modify_fn, modify_conditional, modify_tail_loop, wrap_fn_with_controls (dfg_modify.rs)", "modify_cfg (modifier_resolver.rs)",
         "modify_call, modify_indirect_call (call_modify.rs)", "array operations (array_modify.rs)"]
FLAT = dict(g1=3, rot=2, g2=3, crz=.8, ccx=.4, gph=.7)
DEEP = dict(FLAT, dfg=1, cond=1.2, cfg=.7, call=1, calli=1)
MISC = dict(FLAT, noop=1.5, bar=1.5, ctup=1, dfg=.5, cond=.5, cfg=.3, call=.5)
QTUP = dict(MISC, qtup=3)
CLASSICAL = dict(FLAT, fcls=2, cond=.5, carr=1.5, creg=1.5)


def post(c, j):
    """nothing reachable from the program still asks for a modifier"""
    nodes = j["nodes"]
    bad = sum(1 for n in nodes if n["op"] == "Extension" and n["extension"] == "tket.modifier")
    return f"{bad} modifier operation(s) left in the program" if bad and c.expect == "ok" else None


def tag(ch):
    return "".join(str(x) for c in ch for x in c)


def singles(ck, chains, most):
    for g, (nq, rot) in GATES.items():
        for ch in chains:
            if nq + sum(c[1] for c in ch if c[0] == "c") > most:
                continue
            ck.add(f"{g}-{tag(ch)}", {"hugr": ModGen(0, {}).program(ch, None, None, 0, 0, gate_fn(g, nq, rot))}, P, OPTS, post=post)


def rnd(ck, name, n, feats, chains, qsigs, depth, size, seed, perm=0, expect="ok", twice=0):
    for s in range(n):
        r = random.Random(f"{name}/{seed}/{s}")
        ch = chains[s % len(chains)]
        nc = sum(c[1] for c in ch if c[0] == "c")
        qs = r.choice([q for q in qsigs if width(q) + nc <= 5])
        cls = r.choice([[], [ROT], [ROT, BOOL], [BOOL], [ROT, ROT]])
        mod = r.random() < .4
        g = ModGen(f"{name}/{seed}/{s}", dict(feats, nosum=0) if mod else feats, maxrot=3)
        if "mod" not in feats:  # any flags that allow the modifiers
            need = (1 if ("d",) in ch else 0) | (2 if any(c[0] == "c" for c in ch) else 0)
            g.flag = r.choice([f for f in range(8) if f & need == need])
        j = g.program(ch, qs, cls, depth, r.randint(1, size), perm=r.random() < perm, twice=r.random() < twice, module=mod)
        ck.add(f"{name}{s}", {"hugr": j}, P, OPTS, expect=expect, post=post)


Q1, Q2, Q3 = [QB], [QB, QB], [QB, QB, QB]
PLAIN = [Q1, Q2, Q2, Q3]
ARRS = [[ARR(2, QB)], [QB, ARR(1, QB)], [ARR(1, QB), QB], [ARR(2, QB), QB], [BARR(2, QB)], [BARR(1, QB), ARR(1, QB)]]


def inner_first(ck):
    """with a Module entry point inner modifiers are resolved before outer ones: dagger of a function that calls a controlled function with an angle computed in a region"""
    g = ModGen(0, FLAT)
    f2 = g.m.func("f2", [QB, ROT], [QB])
    g.m.meta[f2.n] = {"unitary": 7}
    x = f2.dfg([f2.ins[1]], [ROT])
    x.out([x.op("tket.rotation.radd", [x.ins[0], x.rot(.25)])[0]])
    f2.out(f2.op("tket.quantum.Rx", [f2.ins[0], x.outs[0]]))
    f2.qsig, f2.cls = [QB], [ROT]

    def mk(g):
        f = g.m.func("f1", [QB, QB, ROT], [QB, QB])
        g.m.meta[f.n] = {"unitary": 7}
        f.out(g.modcall(f, f2, [("c", 1)], [[f.ins[0]]], [f.ins[1]], [f.ins[2]]))
        f.qsig, f.cls = [QB, QB], [ROT]
        return f
    ck.add("inner-first", {"hugr": g.program([("d",)], None, None, 0, 0, mk, module=True)}, P, OPTS, post=post)
