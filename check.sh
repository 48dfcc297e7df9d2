#!/bin/bash
# check.sh PROPERTY            run the check (tier from VERIF_TIER, seed from VERIF_SEED)
# check.sh replay FILE         re-execute a replay file
# check.sh one PROPERTY INDEX  print the trace of one run
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 3
. tools/env.sh
mode=check; prop="$1"; file=""
if [ "$1" = replay ]; then mode=replay; file="$2"; prop=$(grep -o '"property": *"[A-Z0-9]*"' "$file" | head -1 | grep -o '[A-Z][0-9]*'); fi
if [ "$1" = one ]; then mode=one; prop="$2"; fi
case "$prop" in
  R*) build_rt && build_bin rtsim || { echo "ERROR: build failed"; exit 3; }; bin="$B/rtsim-target/release/rtsim" ;;
  N*|W*|C02|C03|C06|C07) build_rt && build_bin progsim || { echo "ERROR: build failed"; exit 3; }; bin="$B/progsim-target/release/progsim" ;;
  C*) build_bin ccsim || { echo "ERROR: build failed"; exit 3; }; bin="$B/ccsim-target/release/ccsim" ;;
  *) echo "ERROR: unknown property $prop"; exit 3 ;;
esac
flock -u 9; exec 9>&-
case $mode in
  check) exec setarch -R "$bin" check "$prop" ;;
  replay) exec setarch -R "$bin" replay "$file" ;;
  one) exec setarch -R "$bin" one "$prop" "$3" ;;
esac
