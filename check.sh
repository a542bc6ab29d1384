#!/bin/bash
# check.sh ID: rebuild the harness (and sorock from /repo's working tree) and run one property's check.
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true
if ! cargo build --offline > /tmp/verif-build.$$.log 2>&1; then
  grep -E "^error" -A12 /tmp/verif-build.$$.log | head -60
  echo "the harness does not build against /repo"
  rm -f /tmp/verif-build.$$.log
  exit 2
fi
rm -f /tmp/verif-build.$$.log
exec ./target/debug/harness check "$1"
