# Sourced. Environment and helpers shared by setup and the checks.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"; export VERIF_DIR
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS LD_LIBRARY_PATH CARGO_TARGET_DIR RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET
B="$VERIF_DIR/build"; mkdir -p "$B"
exec 9>"$B/.lock"; flock 9

# Cargo decides by modification times; a tree laid out by other means may carry old ones. So: whenever the
# contents of the Rust sources differ from those of the last build in a target directory, forget that
# directory's fingerprints of path dependencies.
src_hash() { # over everything that can influence the build
  { find /repo/crates /repo/src /repo/lib /repo/Cargo.toml /repo/Cargo.lock "$VERIF_DIR"/stubs "$VERIF_DIR"/simcore "$VERIF_DIR"/rtlib "$VERIF_DIR"/rtsim "$VERIF_DIR"/progsim "$VERIF_DIR"/ccsim "$VERIF_DIR"/tools \
      -type f -not -path '*/target/*' -not -name '*.snap' -print0 2>/dev/null | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1
}
fresh_target() { # TARGET_DIR
  local t="$1" h; mkdir -p "$t"; h="$SRC_HASH"
  if [ "$(cat "$t/.srchash" 2>/dev/null)" != "$h" ]; then
    find "$t" -maxdepth 3 -type d -path '*/.fingerprint/*' \( -name 'trunk-ir*' -o -name 'tribute*' -o -name 'simcore*' -o -name 'rtlib*' -o -name 'rtsim*' -o -name 'progsim*' -o -name 'ccsim*' -o -name 'tree-sitter*' -o -name 'parking_lot*' -o -name 'ropey*' -o -name 'fluent-uri*' \) -exec rm -rf {} + 2>/dev/null
    rm -f "$t/.srchash"
  fi
}
mark_target() { echo "$SRC_HASH" > "$1/.srchash"; }
SRC_HASH="$(src_hash)"

build_rt() { # the shipped runtime, instrumented, with every libc symbol behind the simulated OS -> $B/rt.o
  local t="$B/rt-target"; fresh_target "$t"
  if [ -f "$t/.srchash" ] && [ -f "$B/rt.o" ]; then return 0; fi
  ( cd "$VERIF_DIR/rtlib" && SIM_COV_CRATES="tribute_runtime tribute_rc smallvec" RUSTC_WRAPPER="$VERIF_DIR/tools/rustc_cov.sh" \
    CARGO_TARGET_DIR="$t" cargo build --offline --release ) >"$B/rt-build.log" 2>&1 || { tail -30 "$B/rt-build.log"; return 1; }
  local a="$t/release/librtlib.a" syms
  syms=$(nm "$a" 2>/dev/null | awk '$2=="T" && ($3 ~ /^__tribute_/ || $3=="__asan_init"){print $3}' | sort -u)
  [ -n "$syms" ] || { echo "no runtime symbols found"; return 1; }
  local u="" k="$B/rt.keep"; : >"$k"
  for s in $syms; do u="$u -u $s"; echo "$s" >>"$k"; done
  ld -r -o "$B/rt.tmp.o" $u "$a" || return 1
  local r="" s
  for s in read write readv writev fsync malloc calloc realloc free posix_memalign aligned_alloc abort sched_yield pthread_key_create pthread_key_delete \
           pthread_getspecific pthread_setspecific pthread_self pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once; do r="$r --redefine-sym $s=sim_$s"; done
  objcopy --remove-section='.eh_frame*' --remove-section='.gcc_except_table*' --keep-global-symbols="$k" --redefine-sym __errno_location=sim_errno_location --redefine-sym exit=sim_exit --redefine-sym _exit=sim__exit $r "$B/rt.tmp.o" "$B/rt.tmp2.o" || return 1
  rm -f "$B/rt.tmp.o"
  cmp -s "$B/rt.tmp2.o" "$B/rt.o" && rm -f "$B/rt.tmp2.o" || mv "$B/rt.tmp2.o" "$B/rt.o"
  mark_target "$t"
}
build_bin() { # CRATE: harness crate linking rt.o
  local c="$1" t="$B/$1-target"; fresh_target "$t"
  if [ -f "$t/.srchash" ] && [ -x "$t/release/$c" ]; then return 0; fi
  local w="" k=""
  if [ "$c" = ccsim ]; then w="$VERIF_DIR/tools/rustc_cov.sh"; k="trunk_ir lasso"; fi
  ( cd "$VERIF_DIR/$c" && SIM_COV_CRATES="$k" RUSTC_WRAPPER="$w" RT_OBJ="$B/rt.o" CARGO_TARGET_DIR="$t" cargo build --offline --release ) >"$B/$c-build.log" 2>&1 || { tail -40 "$B/$c-build.log"; return 1; }
  mark_target "$t"
}
