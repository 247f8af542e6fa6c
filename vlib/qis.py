"""The QIS compiler of the current tree (qis-compiler/rust), run on HUGR json."""
import copy
import json
import os
import shutil
import sys
import tempfile
from . import drv
from .hg import sig, INT

_MOD = None
REPO = "/repo"


def load():
    """import the compiled extension module"""
    global _MOD
    if _MOD is None:
        d = tempfile.mkdtemp(prefix="verif_qis_")
        shutil.copy(os.path.join(drv.TGT, "driver", "debug", "libselene_hugr_qis_compiler.so"), os.path.join(d, "selene_hugr_qis_compiler.so"))
        sys.path.insert(0, d)
        import selene_hugr_qis_compiler as m
        sys.path.remove(d)
        _MOD = m
        shutil.rmtree(d, ignore_errors=True)
    return _MOD


def entry(j):
    """the entry function"""
    if j["nodes"][j["entrypoint"]]["op"] == "FuncDefn":
        return j["entrypoint"]
    return next(i for i, n in enumerate(j["nodes"]) if n["op"] == "FuncDefn" and n["name"] == "main")


def wrap(j):
    """the program with its entry function renamed to `fut`, kept alive by a new, trivial `main`"""
    j = copy.deepcopy(j)
    fi = entry(j)
    for n in j["nodes"]:
        if n["op"] == "FuncDefn" and n["name"] in ("main", "fut"):
            n["name"] += "_"
    f = j["nodes"][fi]
    f["name"] = "fut"
    f["visibility"] = "Public"
    s = f["signature"]["body"]
    ft = {"t": "G", "input": s["input"], "output": s["output"]}
    k = len(j["nodes"])
    j["nodes"] += [{"op": "FuncDefn", "parent": 0, "name": "main", "signature": {"params": [], "body": sig([], [])}, "visibility": "Public"},
                   {"op": "Input", "parent": k, "types": []}, {"op": "Output", "parent": k, "types": []},
                   {"op": "FuncDecl", "parent": 0, "name": "use_it", "signature": {"params": [], "body": sig([ft], [])}, "visibility": "Public"},
                   {"op": "LoadFunction", "parent": k, "func_sig": {"params": [], "body": s}, "type_args": [], "instantiation": s},
                   {"op": "Call", "parent": k, "func_sig": {"params": [], "body": sig([ft], [])}, "type_args": [], "instantiation": sig([ft], [])}]
    j["edges"] += [[[fi, 0], [k + 4, 0]], [[k + 4, 0], [k + 5, 0]], [[k + 3, 0], [k + 5, 1]]]
    j["metadata"] += [None] * (len(j["nodes"]) - len(j["metadata"]))
    j["entrypoint"] = k
    return j


def exts(j):
    """definitions of the extensions which the compiler does not know itself: programs bring them along"""
    used = {n["extension"] for n in j["nodes"] if n["op"] == "Extension"}
    return [json.load(open(os.path.join(REPO, "tket-exts/src/tket_exts/data/tket/qsystem", k + ".json"))) for k in ("random", "utils") if "tket.qsystem." + k in used]


def decls(j):
    return {n["name"]: n["signature"]["body"]["output"] for n in j["nodes"] if n["op"] == "FuncDecl"}


def compile_one(job):
    """(json, opt level, triple) -> {"llvm"} | {"err"}"""
    j, opt, triple = job
    m = load()
    fd = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        b = b"HUGRiHJv?@" + json.dumps({"modules": [j], "extensions": exts(j)}).encode()
        return {"llvm": m.compile_to_llvm_ir(b, opt, triple)}
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return {"err": f"{type(e).__name__}: {e}"[:900]}
    finally:
        os.dup2(fd, 2)
        os.close(fd)
        os.close(null)


def side(j, text, closed=False):
    """the LLVM side of a comparison with the program j"""
    if closed:
        return {"llvm": text, "ins": [], "outs": [INT(6)], "fn": "qmain", "decls": decls(j)}
    f = j["nodes"][entry(j)]
    s = f["signature"]["body"]
    return {"llvm": text, "ins": s["input"], "outs": s["output"], "fn": "fut", "decls": decls(j)}
