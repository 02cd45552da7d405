#!/bin/bash
# The Node binding, from the current tree.
cd "$VERIF_ROOT" || exit 1
log=$VERIF_ROOT/work/build-node.log
{
  tools/overlay.sh node-eth-kzg &&
  cp target/ws/release/libnode_eth_kzg.so work/ws/bindings/node/node-eth-kzg.linux-x64-gnu.node
} >"$log" 2>&1 || { tail -n 40 "$log" >&2; exit 1; }
