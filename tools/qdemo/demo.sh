#!/bin/bash
# run with cwd /repo after build.sh: 0 = behaves as specified
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp /repo/target/debug/libselene_hugr_qis_compiler.so "$d/selene_hugr_qis_compiler.so" || exit 2
cd "$d"
/usr/bin/python3 - "$here" <<'P' || exit 1
import sys
sys.path.insert(0, ".")
import selene_hugr_qis_compiler as m
src = open(sys.argv[1] + "/prog.json").read()
open("prog.bc", "wb").write(bytes(m.compile_to_bitcode(b"HUGRiHJv?@" + ('{"modules": [' + src + '], "extensions": []}').encode(), 0, "native")))
P
/usr/lib/llvm-14/bin/clang -w prog.bc "$here/stub.c" -lm -o prog || exit 2
timeout 60 ./prog
