#!/bin/bash
# Builds the simulator from /repo's working tree and runs one check:
#   check.sh <property> [--quick|--thorough] ...
#   check.sh replay <file>
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
id=$1; shift
what=sim
[[ "$id" = C10 || "$id" = C21 ]] && what=simrubi
if [ "$id" = replay ]; then
  grep -qE '^plan C(10|21) ' "$1" && what=simrubi
fi
log=$(mktemp)
if ! "$root/build.sh" $what >"$log" 2>&1; then
  tail -n 60 "$log" >&2; rm -f "$log"
  echo "build failed" >&2
  exit 2
fi
rm -f "$log"
bin=$root/$what/target/debug/calcu_$what
if [ "$id" = replay ]; then exec "$bin" replay "$@"; fi
exec "$bin" check "$id" "$@"
