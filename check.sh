#!/bin/bash
# check.sh <property> [quick|thorough]: builds the model checker against /repo's
# working tree and decides one property. check.sh build: only builds.
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
T="$PWD/target"
# the library is always built again, whatever the file times of /repo say
if [ -d "$T/release/.fingerprint" ]; then
  find "$T/release/.fingerprint" -maxdepth 1 \( -name 'graphql-parser-*' -o -name 'mc-*' \) -exec rm -r -- {} +
fi
LOG=$(mktemp) || exit 2
if ! cargo build --quiet --release --offline --manifest-path mc/Cargo.toml --target-dir "$T" >"$LOG" 2>&1; then
  cat "$LOG"; rm -f -- "$LOG"
  echo "check.sh: the build failed" >&2
  exit 2
fi
rm -f -- "$LOG"
[ "$1" = build ] && exit 0
MC_ROOT="$PWD" exec "$T/release/mc" check "$1" "${2:-quick}"
