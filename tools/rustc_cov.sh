#!/bin/bash
# RUSTC_WRAPPER: adds scheduler yield points (sanitizer coverage callbacks at basic blocks, loads and
# stores) to the crates named in $SIM_COV_CRATES; every other crate is compiled as is.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
if [ -n "$name" ] && [[ " $SIM_COV_CRATES " == *" $name "* ]]; then
  if [ "$SIM_COV_KIND" = pc ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc
  else
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
  fi
fi
exec "$rustc" "$@"
