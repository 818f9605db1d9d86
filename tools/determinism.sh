#!/bin/bash
# determinism.sh SIM [RUNS] [PROP...]: executes the same runs in one process, backwards, and dealt to 8 processes,
# and compares the hashes of their event logs. With OTHER=<another build> also between the builds.
sim=$1; n=${2:-2000}; shift 2
here="$(cd "$(dirname "$0")/.." && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
for p in ${@:-$(cat "$here/tools/claimed.txt")}; do
	[ $p = C28 ] && [ "$("$sim" -mode hashes -prop C28 -runs 1 2>&1 | wc -l)" = 0 ] && continue
	"$sim" -mode hashes -prop $p -from 0 -runs $n > $t/a &
	"$sim" -mode hashes -prop $p -from $((n-1)) -step -1 -runs $n > $t/b &
	for w in 0 1 2 3 4 5 6 7; do "$sim" -mode hashes -prop $p -from $w -step 8 -runs $((n/8)) > $t/c$w & done
	[ -n "$OTHER" ] && "$OTHER" -mode hashes -prop $p -from 0 -runs $n > $t/d
	wait
	sort -n -o $t/b $t/b; cat $t/c? | sort -n > $t/c
	r=same; cmp -s $t/a $t/b || r="differs backwards"; cmp -s <(head -$((n/8*8)) $t/a) $t/c || r="$r, differs between workers"
	[ -n "$OTHER" ] && { cmp -s $t/a $t/d || r="$r, differs between builds"; }
	echo "$p $(wc -l < $t/a) runs: $r"
done
