#!/bin/bash
# overlay.sh PACKAGE...   builds crates of /repo's workspace from a copy of the
# working tree without the nim member, whose git dependency cannot be fetched.
# The copy also keeps what the build scripts generate out of /repo.
here=$(cd "$(dirname "$0")/.." && pwd)
export VERIF_ROOT=${VERIF_ROOT:-$here}
. "$VERIF_ROOT/env.sh"
ws=$VERIF_ROOT/work/ws
python3 - "$ws" <<'P' || exit 1
import os, sys, shutil, filecmp
ws = sys.argv[1]
src = '/repo'
skip_dirs = {'target', 'build', 'node_modules', '.git', 'nim', 'test_vectors', '.gradle'}
# Outputs of build scripts, committed in /repo: made once, then the build's own.
generated = {'bindings/java/rust_code/ethereum_cryptography_LibEthKZG.h',
             'bindings/csharp/csharp_code/EthKZG.bindings/native_methods.g.cs'}
want = set()
for top in ['bindings', 'cryptography', 'eip7594', 'maybe_rayon']:
    for d, ds, fs in os.walk(os.path.join(src, top)):
        ds[:] = [x for x in ds if x not in skip_dirs]
        for f in fs:
            if f.endswith(('.class', '.node')):
                continue
            want.add(os.path.relpath(os.path.join(d, f), src))
for r in want:
    a, b = os.path.join(src, r), os.path.join(ws, r)
    if r in generated and os.path.exists(b):
        continue
    if os.path.exists(b) and filecmp.cmp(a, b, shallow=False):
        continue
    os.makedirs(os.path.dirname(b), exist_ok=True)
    shutil.copyfile(a, b)
for top in ['bindings', 'cryptography', 'eip7594', 'maybe_rayon']:
    for d, ds, fs in os.walk(os.path.join(ws, top)):
        ds[:] = [x for x in ds if x not in skip_dirs]
        for f in fs:
            r = os.path.relpath(os.path.join(d, f), ws)
            if r not in want and not f.endswith(('.class', '.node')):
                os.remove(os.path.join(d, f))
os.makedirs(os.path.join(ws, 'bindings/c/build'), exist_ok=True)
t = open('/repo/Cargo.toml').read().replace('    "bindings/nim/rust_code",\n', '')
p = os.path.join(ws, 'Cargo.toml')
if not os.path.exists(p) or open(p).read() != t:
    open(p, 'w').write(t)
P
[ -f "$ws/Cargo.lock" ] || cp "$VERIF_ROOT/tools/ws.Cargo.lock" "$ws/Cargo.lock"
export CARGO_TARGET_DIR=$VERIF_ROOT/target/ws
# Faster to build than the workspace's own release profile; overflow is a failure.
export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
# The header is written by c_eth_kzg's build script, which only runs when its sources change.
[ -f "$ws/bindings/c/build/c_eth_kzg.h" ] || touch "$ws/bindings/c/src/lib.rs"
args=()
for p in "$@"; do args+=(-p "$p"); done
cd "$ws" && cargo build --release --offline "${args[@]}"
