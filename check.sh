#!/bin/bash
# check.sh ID [FACET]      build what the property needs from /repo, then decide it
# check.sh replay FILE     run one recorded case again
# VERIF_TIER=quick|thorough, VERIF_SEED=n
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=${VERIF_ROOT:-$here}
. "$VERIF_ROOT/env.sh"
id=$1
[ "$1" = replay ] && id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2")
case "$id" in
  C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C12|C17) bin=core features=mt ;;
  C11) bin=config features=mt ;;
  C13) bin=capi features=mt ;;
  C14|C15|C16|C23) bin=lang features=mt ;;
  C18) bin=poly features=poly ;;
  C19) bin=rs features=rs ;;
  C20|C21) bin=curve features=curve ;;
  C24) bin=cost features=mt ;;
  C22) bin=fk features=fk ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
log=$VERIF_ROOT/work/build-$bin.log
mkdir -p "$VERIF_ROOT/work"
build() { # target-dir features bin
  (cd "$VERIF_ROOT/harness" && CARGO_TARGET_DIR=$1 cargo build --release --offline --features "$2" --bin "$3") >"$log" 2>&1 \
    || { echo "build failed:" >&2; tail -n 40 "$log" >&2; exit 2; }
}
build "$CARGO_TARGET_DIR" "$features" "$bin"
[ -x "$VERIF_ROOT/prepare/$id.sh" ] && { "$VERIF_ROOT/prepare/$id.sh" || exit 2; }
if [ "$1" = replay ]; then
  exec "$CARGO_TARGET_DIR/release/$bin" replay "$2"
fi
exec "$CARGO_TARGET_DIR/release/$bin" check "$@"
