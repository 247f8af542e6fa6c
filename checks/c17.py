"""Bounded model checking (Kani / CBMC) of the cost arithmetic: every harness of kani_c17 is compiled together with /repo's tket and decided for all
values; a failure is re-run natively, against the real code, on the values of the counterexample."""
import json
import os
import re
import subprocess
import sys
import time
from vlib.drv import ROOT, ENV

TIER = os.environ.get("VERIF_TIER", "quick")
DIR = os.environ.get("KANI_DIR", os.path.join(ROOT, "kani_c17"))
TGT = os.path.join(ROOT, "target", "kani")
T0 = time.time()
LIMIT = 200 if TIER == "quick" else 400
KENV = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_TARGET", "RUSTUP_", "RUSTC", "RUSTFLAGS"))}
KENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
FUNCTIONS = ["CircuitCost and CostDelta for usize, isize and LexicographicCost (tket/src/circuit/cost.rs)", "Ord, Add, AddAssign, Sum, Default, From for LexicographicCost (tket/src/circuit/cost.rs)",
             "StrategyCost::under_threshold, GammaStrategyCost::under_threshold (tket/src/rewrite/strategy.rs)"]
BOUNDS = ("costs of one to three components, all values up to isize::MAX (up to 2^60 where three are added); divisors 1, 2, 3, 5, 6, 7 of all costs up to 2^16 and all powers of two below 2^62 of all costs; "
          "gamma in {0.5, 1, 1.0001, 2} with costs up to 2^16, gamma 1 with costs up to 2^32; loops unrolled 26 times with unwinding assertions; per-harness limit %d s" % LIMIT)


def kani(args, timeout):
    p = subprocess.Popen(["cargo", "kani", "--lib", "--target-dir", TGT, "--output-format", "terse", "--harness-timeout", f"{LIMIT}s", "-Z", "unstable-options"] + args,
                         cwd=DIR, env=KENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        return p.communicate(timeout=timeout)[0], p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        return p.communicate()[0], 124


def native(name, vals):
    """the harness, built natively, on the values of the counterexample"""
    env = dict(ENV, RUST_BACKTRACE="0", CARGO_TARGET_DIR=os.path.join(ROOT, "target", "kani_native"))
    b = subprocess.run(["cargo", "build", "--quiet", "--bin", "replay"], cwd=DIR, env=env, capture_output=True, text=True)
    if b.returncode:
        return None, b.stderr[-800:]
    r = subprocess.run([os.path.join(env["CARGO_TARGET_DIR"], "debug", "replay"), name] + [",".join(map(str, v)) for v in vals], env=env, capture_output=True, text=True)
    return r.returncode == 101, (r.stdout + r.stderr)[-800:]


out = os.path.join(ROOT, "target", "kani_c17.json")
os.makedirs(os.path.dirname(out), exist_ok=True)
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
if os.path.exists(out):
    os.remove(out)
log, rc = kani(["-j", "8", "--export-json", out], 560 if TIER == "quick" else 800)
if not os.path.exists(out):
    print(log[-3000:])
    print("C17: INCONCLUSIVE: the model checker gave no result")
    sys.exit(2)
d = json.load(open(out))
res = {r["harness_id"]: r for r in d["verification_results"]["results"]}
stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d["cbmc"]}
viol, incon = [], []
for h, r in sorted(res.items()):
    if r["status"].lower() == "success":
        continue
    bad = [c for c in r.get("checks") or [] if c["status"].lower().startswith("fail")]
    if not bad or all("unwind" in c.get("category", "") or "unwinding" in c.get("description", "") for c in bad):
        incon.append((h, "no verdict within the limits"))
        continue
    what = "; ".join(dict.fromkeys(c["description"] for c in bad))[:300]
    if len(viol) >= 3:
        incon.append((h, "fails, not replayed: " + what))
        continue
    o, _ = kani(["-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", h], 200)
    vals, cur = None, []
    for m in re.finditer(r"(concrete_vals: )|^\s*vec!\[([\d, ]*)\],|(kani::concrete_playback_run)", o, re.M):
        if m.group(1):
            cur = []
        elif m.group(3):
            vals = vals or cur
        else:
            cur.append([int(x) for x in m.group(2).split(",")])
    if vals is None:
        incon.append((h, "fails without values to replay: " + what))
        continue
    ok, text = native(h, vals)
    if not ok:
        incon.append((h, f"the counterexample {vals} was not reproduced: {text}"))
        continue
    viol.append((h, what, vals, text))
for n, (h, what, vals, text) in enumerate(viol):
    p = os.path.join(ROOT, "evidence", f"replay_C17_{n}.json")
    json.dump({"property": "C17", "case": h, "what": what, "values_little_endian": vals, "values": [int.from_bytes(bytes(v), "little") for v in vals], "native_run": text,
               "replay": f"cd kani_c17 && cargo run --bin replay {h} " + " ".join(",".join(map(str, v)) for v in vals)}, open(p, "w"), indent=1)
    print(f"  {h}: {what}  values {[int.from_bytes(bytes(v), 'little') for v in vals]}")
    print(f"VIOLATION property=C17 replay={p}", flush=True)
for h, why in incon:
    print(f"  INCONCLUSIVE {h}: {why}"[:600])
checks = sum(len(r.get("checks") or []) for r in res.values())
solver = sum((s.get("runtime_decision_procedure_s") or 0) for s in stats.values())
json.dump({"property": "C17", "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
           "coverage": {"explanation": "bounded model checking of the compiled functions: each harness is one property over symbolic costs, decided by the SAT/SMT back end for all values within the bounds",
                        "functions_encoded": FUNCTIONS, "bounds": BOUNDS, "harnesses": len(res), "harnesses_proved": sum(r["status"].lower() == "success" for r in res.values()),
                        "queries_discharged": checks, "verification_conditions": sum((s.get("vccs_generated") or 0) for s in stats.values()), "solver_s": round(solver, 2),
                        "inconclusive": len(incon), "samples": [{"harness": h, "checks": len(r.get("checks") or []), "solver_s": stats.get(h, {}).get("runtime_decision_procedure_s"), "status": r["status"]} for h, r in sorted(res.items())][:30],
                        "engine": d["tools"]},
           "assumptions": ["costs are at most isize::MAX: a larger one cannot be subtracted"], "wall_s": round(time.time() - T0, 2), "violations": len(viol)},
          open(os.path.join(ROOT, "evidence", "C17.json"), "w"), indent=1)
print(f"C17: {len(res)} harnesses, {checks} checks, {len(viol)} violations, {len(incon)} inconclusive, {time.time() - T0:.1f}s")
sys.exit(1 if viol else 2 if incon or len(res) < 24 else 0)
