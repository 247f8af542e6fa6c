export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export LLVM_SYS_140_PREFIX=/usr/lib/llvm-14 PYO3_PYTHON=/usr/bin/python3.12
export CARGO_TARGET_DIR=/verif/target/driver
