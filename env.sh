# Sourced by the scripts: toolchain and directories, all offline.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export VERIF_ROOT=${VERIF_ROOT:-/verif}
export CARGO_TARGET_DIR=$VERIF_ROOT/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RAYON_NUM_THREADS
