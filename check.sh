#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild the simulator against /repo's working tree, then search.
here="$(cd "$(dirname "$0")" && pwd)"
log="$(mktemp)"
if ! "$here/sim/build.sh" >"$log" 2>&1; then
  tail -40 "$log" >&2
  /bin/rm -f "$log"
  echo "error: the simulator does not build against /repo" >&2
  exit 2
fi
/bin/rm -f "$log"
export SIM_HOME="$here"
exec "${SIM_TARGET:-$here/target}/release/sim" check --property "$1" --tier "${2:-quick}"
