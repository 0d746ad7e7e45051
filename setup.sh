#!/bin/bash
# Builds the harness crates against /repo's working tree, offline.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
mkdir -p run evidence
for c in mc mcx mcf mcv mci; do
  [ -d "$c" ] || continue
  (cd "$c" && cargo build --offline --quiet) || exit 2
done
