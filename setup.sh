#!/bin/bash
# Builds the whole framework from the committed files and /repo's working tree (offline).
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 3
. tools/env.sh
build_rt || exit 1
for c in rtsim progsim ccsim; do
  [ -d "$c" ] || continue
  build_bin "$c" || exit 1
done
echo "setup done"
