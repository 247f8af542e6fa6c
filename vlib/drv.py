"""Build and run the driver (which is compiled against /repo's current working tree)."""
import json
import os
import subprocess
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TGT = os.path.join(ROOT, "target")
ENV = dict(os.environ)
for line in open(os.path.join(ROOT, "driver", "env.sh")):
    line = line.strip()
    if line.startswith("export "):
        for kv in line[7:].split():
            k, v = kv.split("=", 1)
            ENV[k] = v.strip('"')
BIN = os.path.join(TGT, "driver", "debug", "drv")
built = False


def build(pkgs=("drv",)):
    global built
    r = subprocess.run(["cargo", "build", "--quiet"] + [x for p in pkgs for x in ("-p", p)],
                       cwd=os.path.join(ROOT, "driver"), env=ENV, capture_output=True, text=True)
    if r.returncode:
        raise SystemExit("driver build failed:\n" + r.stderr[-4000:])
    if "drv" in pkgs:
        out = subprocess.run([BIN, "--sigs"], capture_output=True, text=True, check=True).stdout
        p = os.path.join(TGT, "sigs.json")
        if not os.path.exists(p) or open(p).read() != out:
            with open(p + f".{os.getpid()}", "w") as f:
                f.write(out)
            os.rename(p + f".{os.getpid()}", p)
    built = True


def run(reqs, threads=8, timeout=600):
    """list of requests -> list of responses in the same order"""
    with tempfile.TemporaryDirectory(prefix="verif_drv_") as d:
        a, b = os.path.join(d, "req"), os.path.join(d, "out")
        with open(a, "w") as f:
            for i, r in enumerate(reqs):
                f.write(json.dumps(dict(r, id=i)) + "\n")
        p = subprocess.run([BIN, a, b, str(threads)], env=ENV, capture_output=True, text=True, timeout=timeout)
        out = {}
        if os.path.exists(b):
            for l in open(b):
                try:
                    j = json.loads(l)
                    out[j["id"]] = j
                except ValueError:
                    pass
        if p.returncode and len(reqs) > 1:
            # a crash (stack overflow, abort): find the culprit one by one
            return [run([r], 1, timeout)[0] if i not in out else out[i] for i, r in enumerate(reqs)]
        if p.returncode:
            return [{"crash": p.returncode, "stderr": p.stderr[-500:]}]
        return [out.get(i, {"crash": -1}) for i in range(len(reqs))]
