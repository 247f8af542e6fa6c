#!/bin/bash
# run with cwd /repo after build.sh: 0 = behaves as specified
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/common.sh
ex=$WS/tket-qsystem/examples
mkdir -p "$ex/vdemo_x"
trap 'rm -f "$ex/vdemo_x/main.rs" "$ex/vdemo_x/mini.rs"; rmdir "$ex/vdemo_x" "$ex" 2>/dev/null' EXIT
cp "$here"/*.rs "$ex/vdemo_x/"
cargo build --workspace --all-features --offline --example vdemo_x >/tmp/vdemo_build.$$ 2>&1 || { tail -40 /tmp/vdemo_build.$$; rm -f /tmp/vdemo_build.$$; exit 2; }
rm -f /tmp/vdemo_build.$$
timeout 200 "$CARGO_TARGET_DIR/debug/examples/vdemo_x"
