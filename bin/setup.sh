#!/bin/bash
# Warms the build cache: builds the simulator, without and with race instrumentation, from /repo's working tree.
here="$(cd "$(dirname "$0")/.." && pwd)"
work="$(mktemp -d "${TMPDIR:-/tmp}/gosync-sim.XXXXXX")" || exit 3
trap 'rm -rf "$work"' EXIT
"$here/bin/build.sh" "$work" && "$here/bin/build.sh" "$work" race
