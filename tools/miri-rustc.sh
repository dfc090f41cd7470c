#!/bin/bash
# MIRI for cargo-miri: build scripts that probe the compiler for old unstable features get a stable one.
case " $* " in
*" --out-dir "*" - "*) export RUSTC_BOOTSTRAP=-1 ;;
esac
exec "$PEMV_MIRI" "$@"
