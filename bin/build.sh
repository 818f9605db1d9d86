#!/bin/bash
# build.sh WORK [race]: instrument a copy of /repo's working tree and build the simulator binary WORK/sim.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
work="$1"; race="$2"; repo="${REPO:-/repo}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off CGO_ENABLED=0
[ -n "$work" ] && rm -rf "$work/gosync" "$work/harness"
mkdir -p "$work/gosync" "$work/harness"
(cd "$repo" && find . -path ./.git -prune -o -type f ! -name '*_test.go' -print0 | tar --null -T - -cf -) | tar -C "$work/gosync" -xf -
cp "$here"/sim/harness/*.go "$work/harness/"
cp "$repo/go.sum" "$work/harness/go.sum"
cat > "$work/harness/go.mod" <<M
module verif.local/harness

go 1.25

require (
	github.com/Redundancy/go-sync v0.0.0
	verif.local/sim v0.0.0
)

require (
$(awk '$2 !~ /go.mod$/ {print "\t" $1, $2, "// indirect"}' "$repo/go.sum")
)

replace github.com/Redundancy/go-sync => $work/gosync

replace verif.local/sim => $here/sim
M
# language version of the copy: at least 1.18 (generics) but with the loop semantics it asks for
cd "$work/gosync"
v=$(sed -n 's/^go \([0-9]*\.[0-9]*\).*/\1/p' go.mod)
minor=${v#1.}
if [ -z "$v" ] || [ "${minor:-0}" -lt 21 ]; then go mod edit -go=1.21; fi
(cd "$here/sim" && go build -o "$work/instrument" ./instrument)
"$work/instrument" -dir "$work/gosync" -mod "$work/harness"
go mod edit -require=verif.local/sim@v0.0.0 -replace=verif.local/sim="$here/sim"
cd "$work/harness"
if [ "$race" != race ]; then
	go build -o "$work/sim" .
	exit
fi
# With race instrumentation. The simulator itself is left without: its own data structures are used
# by all tasks, one at a time. What the runtime's hooks in map, slice and string operations report
# on behalf of the simulator is dropped by a patched copy of them.
rt="$(go env GOROOT)/src/runtime"
sed -e 's/^func racereadpc(addr unsafe.Pointer, callpc, pc uintptr)$/func racereadpc0(addr unsafe.Pointer, callpc, pc uintptr)/' \
	-e 's/^func racewritepc(addr unsafe.Pointer, callpc, pc uintptr)$/func racewritepc0(addr unsafe.Pointer, callpc, pc uintptr)/' \
	-e 's/^func racewriterangepc(/func racewriterangepc0(/' -e 's/^func racereadrangepc(/func racereadrangepc0(/' \
	"$rt/race.go" > "$work/race.go"
[ "$(grep -cE '^func race(read|write)(range)?pc0\(' "$work/race.go")" = 4 ]
cat >> "$work/race.go" <<'G'

func simQuiet(pc uintptr) bool {
	f := findfunc(pc)
	if !f.valid() {
		return false
	}
	n := funcname(f)
	return len(n) > 16 && n[:16] == "verif.local/sim/" || len(n) > 5 && n[:5] == "main."
}

func racereadpc(addr unsafe.Pointer, callpc, pc uintptr) {
	if !simQuiet(callpc) {
		racereadpc0(addr, callpc, pc)
	}
}

func racewritepc(addr unsafe.Pointer, callpc, pc uintptr) {
	if !simQuiet(callpc) {
		racewritepc0(addr, callpc, pc)
	}
}

func racereadrangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {
	if !simQuiet(callpc) {
		racereadrangepc0(addr, sz, callpc, pc)
	}
}

func racewriterangepc(addr unsafe.Pointer, sz, callpc, pc uintptr) {
	if !simQuiet(callpc) {
		racewriterangepc0(addr, sz, callpc, pc)
	}
}
G
sed -e 's/runtime·racereadpc(/runtime·racereadpc0(/' -e 's/runtime·racewritepc(/runtime·racewritepc0(/' "$rt/race_amd64.s" > "$work/race_amd64.s"
# A coroutine that ends does not tell the detector either, which would keep what it knows of it.
sed -e '/^func coroexit(/,/^}/s/^\tgp.coroexit = true$/\tgp.coroexit = true\n\tif raceenabled {\n\t\tracegoend()\n\t}/' "$rt/coro.go" > "$work/coro.go"
[ "$(grep -c 'racegoend()' "$work/coro.go")" = 1 ]
cat > "$work/overlay.json" <<J
{"Replace": {"$rt/race.go": "$work/race.go", "$rt/race_amd64.s": "$work/race_amd64.s", "$rt/coro.go": "$work/coro.go"}}
J
# (specialised allocation calls, which packages without instrumentation use, do not tell the detector)
GOEXPERIMENT=nosizespecializedmalloc CGO_ENABLED=1 go build -race -tags netgo,osusergo -overlay "$work/overlay.json" \
	-gcflags='verif.local/...=-race=false -l' -o "$work/sim" .
