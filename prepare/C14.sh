#!/bin/bash
# The Java binding and its driver, from the current tree.
cd "$VERIF_ROOT" || exit 1
log=$VERIF_ROOT/work/build-java.log
{
  tools/overlay.sh java_eth_kzg &&
  rm -rf "$VERIF_ROOT/work/java" && mkdir -p "$VERIF_ROOT/work/java/x86_64-unknown-linux-gnu" &&
  cp target/ws/release/libjava_eth_kzg.so work/java/x86_64-unknown-linux-gnu/ &&
  javac -encoding UTF-8 -d work/java work/ws/bindings/java/java_code/src/main/java/ethereum/cryptography/*.java drivers/java/Driver.java
} >"$log" 2>&1 || { tail -n 40 "$log" >&2; exit 1; }
