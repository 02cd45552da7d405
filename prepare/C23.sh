#!/bin/bash
# The C library with its driver, the other bindings, and the counting allocator.
cd "$VERIF_ROOT" || exit 1
prepare/C13.sh && prepare/C14.sh && prepare/C15.sh && prepare/C16.sh || exit 1
log=$VERIF_ROOT/work/build-mem.log
mkdir -p work/c
{
  gcc -O2 -Wall -shared -fPIC -o work/heapwatch.so tools/heapwatch.c -ldl &&
  gcc -O2 -Wall -I work/ws/bindings/c/build -o work/c/driver drivers/c/driver.c "$VERIF_ROOT/target/ws/release/libc_eth_kzg.so" -Wl,-rpath,"$VERIF_ROOT/target/ws/release"
} >"$log" 2>&1 || { tail -n 40 "$log" >&2; exit 1; }
