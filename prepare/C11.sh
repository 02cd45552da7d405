#!/bin/bash
# The worker in the three builds of the library.
cd "$VERIF_ROOT/harness" || exit 1
log=$VERIF_ROOT/work/build-config3.log
mkdir -p "$VERIF_ROOT/work/config"
for b in "default kzg" "singlethreaded st" "multithreaded mt"; do
  set -- $b
  { cargo build --release --offline --features "$2" --bin cfgworker &&
    cp "$CARGO_TARGET_DIR/release/cfgworker" "$VERIF_ROOT/work/config/$1.new" &&
    mv "$VERIF_ROOT/work/config/$1.new" "$VERIF_ROOT/work/config/$1"; } >>"$log" 2>&1 || { tail -n 40 "$log" >&2; exit 1; }
done
