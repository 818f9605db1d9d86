#!/bin/bash
# replay.sh FILE: rebuild the simulator from /repo's working tree and execute a replay file again.
here="$(cd "$(dirname "$0")/.." && pwd)"
work="$(mktemp -d "${TMPDIR:-/tmp}/gosync-sim.XXXXXX")" || exit 3
trap 'rm -rf "$work"' EXIT
race=
grep -q '"property": *"C28"' "$1" && race=race
"$here/bin/build.sh" "$work" $race > "$work/build.log" 2>&1 || { cat "$work/build.log"; exit 3; }
"$work/sim" -mode replay -replay "$1"
