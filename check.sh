#!/bin/bash
# usage: check.sh <property> [quick|thorough] [--only space:index]
# Builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true TZ=UTC
id="$1"
case "$id" in
  C26|C3*|C40) crate=mcx ;;
  C04) crate=mcf ;;
  C5*|C67) crate=mcv ;;
  C6*) crate=mci ;;
  *) crate=mc ;;
esac
log="$PWD/run/build.$id.$$.log"
mkdir -p "$PWD/run"
if ! (cd "$crate" && cargo build --offline --quiet) >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "ERROR: the harness does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
exec "$PWD/target/debug/$crate" "$@"
