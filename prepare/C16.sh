#!/bin/bash
# The Go binding with the C library, and its driver, from the current tree.
cd "$VERIF_ROOT" || exit 1
log=$VERIF_ROOT/work/build-go.log
export GOCACHE=$VERIF_ROOT/work/gocache GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1 GOFLAGS=-mod=mod
{
  tools/overlay.sh c_eth_kzg &&
  out=work/ws/bindings/golang/build/x86_64-unknown-linux-gnu && mkdir -p $out work/go &&
  cp target/ws/release/libc_eth_kzg.a $out/ &&
  cp work/ws/bindings/c/build/c_eth_kzg.h work/ws/bindings/golang/build/ &&
  # Go's build cache does not look inside the .a: make its hash part of the key.
  export CGO_CFLAGS="-g -O2 -DLIB_HASH=0x$(sha256sum $out/libc_eth_kzg.a | cut -c1-8)" &&
  cp drivers/go/main.go drivers/go/go.mod work/go/ &&
  ln -sfn ../ws/bindings/golang/build work/go/build && # the linker finds ./build from here
  (cd work/go && go build -o driver .)
} >"$log" 2>&1 || { tail -n 40 "$log" >&2; exit 1; }
