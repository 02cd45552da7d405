#!/bin/bash
# The C library, from the current tree.
"$VERIF_ROOT/tools/overlay.sh" c_eth_kzg >"$VERIF_ROOT/work/build-c.log" 2>&1 || { tail -n 40 "$VERIF_ROOT/work/build-c.log" >&2; exit 1; }
