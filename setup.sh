#!/bin/bash
# Builds the framework once, to show that it builds; every check builds what it needs again.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=${VERIF_ROOT:-$here}
. "$VERIF_ROOT/env.sh"
cd "$VERIF_ROOT/harness" && cargo build --release --offline --features mt --bin core
