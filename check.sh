#!/bin/bash
# check.sh ID: rebuild the simulator from /repo's working tree and decide one property.
# Exit 0: held on everything explored; 1: violated (with a VIOLATION line); 3: no answer.
cd "$(dirname "$0")/sim" || exit 3
id=${1:?property id}
export CARGO_TERM_COLOR=never RUST_BACKTRACE=0
log=$(mktemp /tmp/brack-sim-build.XXXXXX)
if ! cargo build --offline >"$log" 2>&1; then
  echo "check $id: the simulator does not build against /repo:"
  grep -E -A8 '^error' "$log" | head -60
  rm -f "$log"
  exit 3
fi
rm -f "$log"
exec ./target/debug/brack-sim check "$id"
