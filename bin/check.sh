#!/bin/bash
# check.sh PROPERTY: rebuild the simulator from /repo's working tree and decide one property.
prop="$1"
here="$(cd "$(dirname "$0")/.." && pwd)"
tier="${VERIF_TIER:-quick}"; seed="${VERIF_SEED:-1}"
case "$seed" in ''|*[!0-9]*) seed=1;; esac
case "$tier" in thorough) time="${SIM_TIME:-12m}";; *) tier=quick; time="${SIM_TIME:-35s}";; esac
work="$(mktemp -d "${TMPDIR:-/tmp}/gosync-sim.XXXXXX")" || exit 3
trap 'rm -rf "$work"' EXIT
t0=$(date +%s.%N)
race=
case "$prop" in C28) race=race;; esac
if ! "$here/bin/build.sh" "$work" $race > "$work/build.log" 2>&1; then
	cat "$work/build.log"
	echo "the simulator could not be built"
	exit 3
fi
t1=$(date +%s.%N)
"$work/sim" -prop "$prop" -tier "$tier" -seed "$seed" -time "$time" -out "$here/replays" \
	-known "$here/known-findings.txt" -evidence "$here/evidence/$prop.json" \
	-build-seconds "$(echo "$t1 - $t0" | bc 2>/dev/null || echo 0)"
