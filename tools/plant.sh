#!/bin/bash
# plant.sh verify ID...  : confirm planted changes (build, stable tests, demo passes without and fails with)
# plant.sh check ID [TIME] [PROP...] : run the simulator of the property (or PROP...) against a planted change
# Works on copies of /repo under /tmp only.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here="$(cd "$(dirname "$0")/.." && pwd)"
cmd=$1; shift
copy() { # ID -> dir
	d=$(mktemp -d /tmp/plant.XXXXXX); cp -a /repo/. "$d/"; echo "$d"; }
case $cmd in
verify)
	for id in "$@"; do
		s="$here/seeded/$id"; d=$(copy); l="$d.log"; r=ok
		demo=$(mktemp -d /tmp/demo.XXXXXX); cp -a "$s/." "$demo/"; rm -f "$demo"/*.diff "$demo"/meta.json
		(cd "$d" && go build ./... && timeout 300 bash "$demo/demo.sh") > "$l" 2>&1 || r="demo fails on the unchanged tree"
		if [ "$r" = ok ]; then (cd "$d" && git apply "$s/patch.diff" && go build ./...) >> "$l" 2>&1 || r="does not apply or build"; fi
		if [ "$r" = ok ]; then
			(cd "$d" && go test -json -vet=off -count=1 -cpu 1 -timeout 3m ./... > "$d.json" 2>> "$l"); python3 /opt/vp/results.py "$d.res" gojson:"$d.json" >/dev/null
			python3 - "$d.res" <<'P' >> "$l" 2>&1 || r="stable tests fail"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
    for k in ('stable_pass','stable','passed','pass'):
        if k in x: return set(x[k])
    raise SystemExit('keys '+str(list(x)))
m=names(b)-names(r); print('missing',m); sys.exit(bool(m))
P
		fi
		if [ "$r" = ok ]; then (cd "$d" && timeout 300 bash "$demo/demo.sh") >> "$l" 2>&1 && r="demo passes with the change"; fi
		echo "$id: $r"; [ "$r" = ok ] || tail -25 "$l"
		rm -rf "$d" "$d.log" "$d.json" "$d.res" "$demo"
	done;;
check)
	id=$1; t=${2:-10s}; shift; shift
	s="$here/seeded/$id"; d=$(copy); (cd "$d" && git apply "$s/patch.diff") || exit 3
	w=$(mktemp -d /tmp/plantw.XXXXXX)
	p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
	built=none
	for q in ${@:-$p}; do
		race=; [ $q = C28 ] && race=race
		if [ "$built" != "$race" ]; then
			REPO=$d bash "$here/bin/build.sh" "$w" $race > "$w.log" 2>&1 || { tail "$w.log"; echo "$id: BUILD FAILED"; }
			built=$race
		fi
		"$w/sim" -prop $q -time "$t" -out "$w/replays" -known "$here/known-findings.txt" > "$w.out" 2>&1; rc=$?
		echo "$id $q rc=$rc $(grep -E '^(violated|VIOLATION|  kind)' "$w.out" | head -2 | tr '\n' ' ' | cut -c1-200)"
	done
	rm -rf "$d" "$w" "$w.log" "$w.out";;
esac
